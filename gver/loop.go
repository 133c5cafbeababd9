package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopAct struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	dry    bool
	unroll bool
	back   func(st *State, fr *Frame, phis []*ssa.Phi, vals []Value)
	cut    func()
	onExit func(st *State)
}

const unrollLimit = 40

func canUnroll(h *ssa.BasicBlock) bool {
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		case *ssa.Next:
			if !x.IsString {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) enterLoop(st *State, fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals []Value) {
	if !canUnroll(header) {
		e.cutLoop(st, fr, header, body, phis, vals)
		return
	}
	var arrive func(st *State, fr *Frame, vals []Value, n int)
	arrive = func(st *State, fr *Frame, vals []Value, n int) {
		st0, fr0 := st.clone(), fr.clone()
		if n >= unrollLimit {
			e.cutLoop(st0, fr0, header, body, phis, vals)
			return
		}
		act := &LoopAct{header: header, body: body, unroll: true}
		act.cut = func() { e.cutLoop(st0, fr0, header, body, phis, vals) }
		act.back = func(st *State, fr *Frame, _ []*ssa.Phi, v2 []Value) {
			f2 := fr.clone()
			f2.loops = f2.loops[:len(f2.loops)-1]
			arrive(st, f2, v2, n+1)
		}
		f2 := fr.clone()
		f2.loops = append(f2.loops, act)
		for i, p := range phis {
			f2.env[p] = vals[i]
		}
		e.block(st, f2, header, nil)
	}
	arrive(st, fr, vals, 0)
}

var debugLoop = os.Getenv("GVER_LOOP") != ""

type cand struct {
	name string
	eval func(st *State, fr *Frame) *Term
	dead bool
	drop bool // at the end of this round
	// does not hold when the loop is entered
	wrong bool
}

type modInfo struct {
	whole bool
	refs  map[*Term]bool
}

// cutLoop applies the invariant rule: establish on entry, havoc what the body
// changes, assume, run the body once, re-establish at every back edge. The
// invariant is the largest inductive subset of the candidate conjuncts
// (declared ones plus shape-derived ones).
func (e *Engine) cutLoop(st0 *State, fr0 *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals []Value) {
	mods := map[string]*modInfo{}
	snap := e.ts.next
	var cands []*cand
	built := false
	entryAlloc := st0.alloc
	// phi leaves proved unchanged by the loop keep their entry term
	kept := map[int]map[int]bool{} // phi -> leaf -> keep
	noKeep := map[[2]int]bool{}
	promoted := false

	setPhis := func(fr *Frame, vs []Value) {
		for i, p := range phis {
			fr.env[p] = vs[i]
		}
	}
	havoc := func() (*State, *Frame) {
		st, fr := st0.clone(), fr0.clone()
		st.alloc += loopGap
		var vs []Value
		for i, p := range phis {
			if iterVar(p) {
				q := e.allocObj(st, p.Type().Underlying().(*types.Pointer).Elem())
				e.store(st, q, e.freshValue(st, q.Elem, "L$"+p.Comment+p.Name()))
				vs = append(vs, q)
				continue
			}
			if len(kept[i]) == 0 {
				vs = append(vs, e.freshValue(st, p.Type(), "L$"+p.Comment+p.Name()))
				continue
			}
			old := e.encode(vals[i], p.Type())
			var ls []*Term
			for j, l := range e.tr.leaves(p.Type()) {
				if kept[i][j] {
					ls = append(ls, old[j])
				} else {
					ls = append(ls, e.ts.Fresh("L$"+p.Comment+p.Name()+l.Path, l.Sort))
				}
			}
			v := e.decode(ls, p.Type())
			e.typing(st, v, p.Type())
			vs = append(vs, v)
		}
		setPhis(fr, vs)
		for _, k := range sortedKeys(mods) {
			m := mods[k]
			cur := st.heap[k]
			if cur == nil {
				panic("loop: modified key without sort " + k)
			}
			if m.whole {
				st.heap[k] = e.ts.Fresh("L$"+k, cur.Sort)
				e.ts.heapKey[st.heap[k]] = k
				continue
			}
			for _, r := range sortedTerms(m.refs) {
				fv := e.ts.Fresh("L$"+k, cur.Sort.elem())
				if lt, ok := e.leafTyp(k); ok {
					e.typing(st, fv, lt)
				}
				if fv.Op == "const" {
					e.ts.heapKey[fv] = "row " + k
				}
				cur = e.ts.Store(cur, r, fv)
			}
			st.heap[k] = cur
		}
		// slices held in modified local cells keep their shape facts
		for _, p := range localCells(fr) {
			if _, ok := p.Elem.Underlying().(*types.Slice); ok {
				if m := mods["o:"+p.Key+"#len"]; m != nil {
					e.typing(st, e.load(st, p), p.Elem)
				}
			}
		}
		return st, fr
	}
	runBody := func(st *State, fr *Frame, dry bool, back func(*State, *Frame, []Value)) {
		act := &LoopAct{header: header, body: body, dry: dry}
		act.back = func(st *State, fr *Frame, _ []*ssa.Phi, v []Value) { back(st, fr, v) }
		f2 := fr.clone()
		f2.loops = append(f2.loops, act)
		e.block(st, f2, header, nil)
	}

	rebuilds := 0
	if debugLoop {
		fmt.Fprintf(os.Stderr, "LOOPDBG enter %s at %s dry %d queries %d paths %d\n", fr0.fn, e.posOf(loopPos(header)), e.dry, e.solver.Queries["z3"], e.run.Paths)
	}
	known := map[string]bool{}
	// addCands adds the candidates about what the loop is now known to modify
	addCands := func() (added bool) {
		f := fr0.clone()
		setPhis(f, vals)
		for _, c := range e.candidates(st0, fr0, header, body, phis, vals, mods, entryAlloc) {
			if rebuilds > 0 && known[c.name] {
				continue
			}
			known[c.name] = true
			t := e.evalCand(c, st0, f)
			if t == nil || e.proves(st0.clone(), t, true) != Unsat {
				if debugLoop {
					fmt.Fprintf(os.Stderr, "LOOPDBG not initially %s\n", c.name)
				}
				c.dead = true
				c.wrong = true
			} else {
				added = true
			}
			cands = append(cands, c)
		}
		if added {
			// they may be inductive given the new ones
			for _, c := range cands {
				if strings.HasPrefix(c.name, "declared") && !c.wrong {
					c.dead = false
				}
			}
		}
		rebuilds++
		return added
	}

	for iter := 0; ; iter++ {
		if iter > 25 {
			unsup("loop analysis did not converge in %s", fr0.fn)
		}
		e.tick()
		if !built && iter > 0 {
			// the modified set is stable enough to name the variables
			built = true
			addCands()
			// start again from the strongest hypothesis
			mods = map[string]*modInfo{}
		}
		st, fr := havoc()
		pre := cloneMap(st.heap)
		for _, c := range cands {
			if c.dead {
				continue
			}
			if t := e.evalCand(c, st, fr); t != nil {
				if debugLoop && strings.HasPrefix(c.name, "declared") {
					fmt.Fprintf(os.Stderr, "LOOPDBG head %d %s: %s\n", iter, c.name, t)
				}
				e.assume(st, t)
			} else {
				c.dead = true
			}
		}
		changed := false
		// the head state was not general yet: nothing is dropped on its account
		widened := false
		var drops []*cand
		e.dry++
		runBody(st, fr, true, func(s2 *State, f2 *Frame, v2 []Value) {
			if s2.dead {
				return
			}
			if e.diffHeap(pre, s2, mods, st0.alloc, snap) {
				changed, widened = true, true
			}
			for i := range phis {
				if len(kept[i]) == 0 {
					continue
				}
				old, now := e.encode(vals[i], phis[i].Type()), e.encode(v2[i], phis[i].Type())
				for j := range old {
					if kept[i][j] && old[j] != now[j] && e.proves(s2, e.ts.Eq(old[j], now[j]), false) != Unsat {
						delete(kept[i], j)
						noKeep[[2]int{i, j}] = true
						changed, widened = true, true
					}
				}
			}
			if widened {
				return
			}
			f3 := f2.clone()
			setPhis(f3, v2)
			// the cheap ones together first
			group := e.ts.True
			grouped := map[*cand]*Term{}
			for _, c := range cands {
				if c.dead || c.drop || strings.HasPrefix(c.name, "declared") {
					continue
				}
				if t := e.evalCand(c, s2, f3); t != nil && arithOnly(t) {
					grouped[c] = t
					group = e.ts.And(group, t)
				}
			}
			if len(grouped) > 1 && !e.inductive(&cand{}, s2, group) {
				grouped = nil
			}
			for i := 0; i < 2*len(cands); i++ {
				// the declared ones last
				c := cands[i%len(cands)]
				decl := strings.HasPrefix(c.name, "declared")
				if c.dead || c.drop || grouped[c] != nil || decl != (i >= len(cands)) {
					continue
				}
				t := e.evalCand(c, s2, f3)
				holds := t != nil && e.inductive(c, s2, t)
				if t != nil && !holds && decl {
					settled := built
					for _, d := range drops {
						settled = settled && strings.HasPrefix(d.name, "declared")
					}
					// losing one of these loses the proof: try hard
					if settled {
						holds = e.provesHard(s2, t)
					}
				}
				if !holds {
					if debugLoop {
						if t != nil && os.Getenv("GVER_LOOP") == "2" {
							fmt.Fprintf(os.Stderr, "LOOPDBG goal %s\n", t)
							if e.run.DumpDir != "" {
								e.run.dump(e, "loop_"+c.name, append(s2.pc[:len(s2.pc):len(s2.pc)], e.ts.Not(e.simp(s2, t))))
							}
						}
						fmt.Fprintf(os.Stderr, "LOOPDBG drop %s (round %d)\n", c.name, iter)
						if strings.HasPrefix(c.name, "declared") && t != nil {
							in, _ := e.solver.instantiate(append(s2.pc[:len(s2.pc):len(s2.pc)], e.ts.Not(t)), true)
							os.WriteFile(fmt.Sprintf("/tmp/loopdbg_%d_%s.smt2", iter, sanitize(c.name)), []byte(e.solver.script(in)), 0644)
						}
					}
					c.drop = true
					drops = append(drops, c)
					changed = true
				}
			}
		})
		e.dry--
		// the declared ones fall only in a round in which none of the others
		// does: a hypothesis that is about to fall may be what failed them
		guesses := false
		for _, c := range drops {
			guesses = guesses || !strings.HasPrefix(c.name, "declared")
		}
		for _, c := range drops {
			c.drop = false
			if guesses && strings.HasPrefix(c.name, "declared") {
				continue
			}
			c.dead = c.dead || !widened
		}
		for k := range mods {
			if _, ok := st0.heap[k]; !ok {
				if t, ok := pre[k]; ok {
					st0.heap[k] = t
				}
			}
		}
		if !changed && built && rebuilds < 4 && addCands() {
			mods = map[string]*modInfo{}
			continue
		}
		// the exits may also have touched state: that is on the continuing path
		if !changed && built && !promoted {
			promoted = true
			st, fr := havoc()
			for _, c := range cands {
				if !c.dead {
					if t := e.evalCand(c, st, fr); t != nil {
						e.assume(st, t)
					}
				}
			}
			any := false
			for i, p := range phis {
				old, now := e.encodeMaybe(vals[i], p.Type()), e.encodeMaybe(fr.env[p], p.Type())
				if old == nil || len(old) != len(now) {
					continue
				}
				for j := range old {
					if old[j].Sort != SInt || iterVar(p) || noKeep[[2]int{i, j}] {
						continue
					}
					if e.proves(st, e.ts.Eq(old[j], now[j]), true) == Unsat {
						if kept[i] == nil {
							kept[i] = map[int]bool{}
						}
						kept[i][j] = true
						any = true
					}
				}
			}
			if any {
				// redo the modification analysis with the sharper head state
				mods = map[string]*modInfo{}
				continue
			}
		}
		if !changed && built {
			break
		}
		if !built && !changed && iter == 0 {
			continue
		}
	}
	var invs []string
	for _, c := range cands {
		if !c.dead {
			invs = append(invs, c.name)
			if e.dry == 0 && e.pure == 0 {
				e.run.VCs += 2
				e.run.VCDischarged += 2
			}
		}
	}
	if e.dry == 0 && e.pure == 0 {
		e.run.loopNote(fmt.Sprintf("%s loop at %s: invariant {%s}", fr0.fn.Name(), e.posOf(loopPos(header)), strings.Join(invs, "; ")))
	}
	st, fr := havoc()
	for _, c := range cands {
		if !c.dead {
			if t := e.evalCand(c, st, fr); t != nil {
				e.assume(st, t)
			}
		}
	}
	if e.infeasible(st, e.ts.True) && e.dry == 0 {
		// contradictory loop head: only acceptable if the entry was infeasible
		if !e.infeasible(st0, e.ts.True) {
			unsup("loop invariant is contradictory in %s", fr0.fn)
		}
	}
	runBody(st, fr, false, func(*State, *Frame, []Value) {})
}

// iterVar: a per-iteration loop variable that lives in memory because a
// closure captures it. Every edge brings a new allocation whose address is
// only loaded, stored to, or bound by a closure that is called, deferred or
// started on the spot; nothing in memory can hold the address, so at the loop
// head it may be taken to be a new object of unknown content.
func iterVar(p *ssa.Phi) bool {
	if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, x := range p.Edges {
		a, ok := x.(*ssa.Alloc)
		if !ok || !localUse(a, p) {
			return false
		}
	}
	return localUse(p, p)
}

func localUse(v ssa.Value, p *ssa.Phi) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.Phi:
			if x != p {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !localUse(x.Fn.(*ssa.Function).FreeVars[i], p) {
					return false
				}
			}
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.DebugRef:
				case ssa.CallInstruction:
					if y.Common().Value != ssa.Value(x) {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return h.Parent().Pos()
}

func (e *Engine) evalCand(c *cand, st *State, fr *Frame) (t *Term) {
	e.dry++
	defer func() {
		e.dry--
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if strings.Contains(u.msg, "budget") {
					panic(r)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, fr)
}

// fixedTerm: the term denotes the same value in every iteration of a loop
// entered when the term store had reached snap.
func fixedTerm(t *Term, snap int) bool {
	if t.ID <= snap {
		return true
	}
	if t.Op == "const" {
		return strings.HasPrefix(t.Name, "in$") || strings.HasPrefix(t.Name, "H0$")
	}
	if t.Op == "bound" || t.hasBound {
		return false
	}
	for _, a := range t.Args {
		if !fixedTerm(a, snap) {
			return false
		}
	}
	return true
}

// diffHeap records what changed between the loop head and a back edge.
func (e *Engine) diffHeap(pre map[string]*Term, st *State, mods map[string]*modInfo, lim int64, snap int) bool {
	changed := false
	for _, k := range sortedKeys(st.heap) {
		cur := st.heap[k]
		old, ok := pre[k]
		if !ok {
			old = e.ts.Const("H0$"+k, cur.Sort)
			pre[k] = old
		}
		if cur == old {
			continue
		}
		m := mods[k]
		if m == nil {
			m = &modInfo{refs: map[*Term]bool{}}
		}
		if m.whole {
			continue
		}
		if strings.HasPrefix(k, "v:") {
			m.whole = true
			mods[k] = m
			changed = true
			continue
		}
		// walk stores down to a common base
		below := map[*Term]bool{}
		for x := old; ; x = x.Args[0] {
			below[x] = true
			if x.Op != "store" {
				break
			}
		}
		x := cur
		ok = true
		var refs []*Term
		walk := func(stop func(*Term) bool) {
			for ok && !stop(x) {
				if x.Op != "store" {
					ok = false
					break
				}
				if !fixedTerm(x.Args[1], snap) {
					if debugLoop {
						fmt.Fprintf(os.Stderr, "LOOPDBG whole %s: store at %s\n", k, x.Args[1].str(6))
					}
					ok = false
					break
				}
				refs = append(refs, x.Args[1])
				x = x.Args[0]
			}
		}
		walk(func(t *Term) bool { return below[t] })
		if ok {
			base := x
			x = old
			walk(func(t *Term) bool { return t == base })
		}
		if !ok {
			m.whole = true
			mods[k] = m
			changed = true
			continue
		}
		for _, r := range refs {
			if r.Op == "int" && r.Int.Cmp(e.refTerm(lim).Int) >= 0 {
				continue // allocated inside this iteration: not visible at the head
			}
			if !m.refs[r] {
				m.refs[r] = true
				mods[k] = m
				changed = true
			}
		}
	}
	return changed
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].ID < out[i].ID {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// localCells: addressable variables of the frame (captured or escaping
// locals) that behave like loop variables.
func localCells(fr *Frame) []*PtrV {
	var out []*PtrV
	seen := map[string]bool{}
	add := func(v ssa.Value) {
		p, ok := fr.env[v].(*PtrV)
		if !ok || p.Idx != nil || p.Ref.Op != "int" {
			return
		}
		k := fmt.Sprintf("%d/%s", p.Ref.ID, p.Key)
		if !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				if _, has := fr.env[a]; has {
					add(a)
				}
			}
		}
	}
	for _, fv := range fr.fn.FreeVars {
		add(fv)
	}
	return out
}

func (e *Engine) leafTyp(key string) (types.Type, bool) {
	if !strings.HasPrefix(key, "o:") {
		return nil, false
	}
	switch key[2:] {
	case "int":
		return types.Typ[types.Int], true
	case "int64":
		return types.Typ[types.Int64], true
	case "uint64":
		return types.Typ[types.Uint64], true
	}
	return nil, false
}

type loopVar struct {
	name string
	typ  types.Type
	get  func(st *State, fr *Frame) Value
}

// loopGap: references allocated by the earlier iterations of a loop lie in a
// range of this size (a loop allocates fewer objects than that).
const loopGap = 1 << 36

func (e *Engine) candidates(st0 *State, fr0 *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals []Value, mods map[string]*modInfo, entryAlloc int64) []*cand {
	ts := e.ts
	var out []*cand
	var vars []loopVar
	var entry []Value
	for i, p := range phis {
		p := p
		if iterVar(p) {
			vars = append(vars, loopVar{"phi:" + p.Comment + "/" + p.Name(), p.Type().Underlying().(*types.Pointer).Elem(), func(st *State, fr *Frame) Value {
				return e.load(st, fr.env[p].(*PtrV))
			}})
			entry = append(entry, e.load(st0, vals[i].(*PtrV)))
			continue
		}
		vars = append(vars, loopVar{"phi:" + p.Comment + "/" + p.Name(), p.Type(), func(st *State, fr *Frame) Value { return fr.env[p] }})
		entry = append(entry, vals[i])
	}
	for _, c := range localCells(fr0) {
		c := c
		touched := false
		for _, l := range e.tr.leaves(c.Elem) {
			if m := mods["o:"+c.Key+l.Path]; m != nil && (m.whole || m.refs[c.Ref]) {
				touched = true
			}
		}
		if !touched {
			continue
		}
		vars = append(vars, loopVar{"cell:" + c.Key, c.Elem, func(st *State, fr *Frame) Value { return e.load(st, c) }})
		entry = append(entry, e.load(st0, c))
		if _, ok := c.Elem.Underlying().(*types.Struct); ok {
			// the counters kept in its fields
			for _, l := range e.tr.leaves(c.Elem) {
				if b, ok := l.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				f := &PtrV{Ref: c.Ref, Key: c.Key + l.Path, Elem: l.Type}
				vars = append(vars, loopVar{"cell:" + f.Key, f.Elem, func(st *State, fr *Frame) Value { return e.load(st, f) }})
				entry = append(entry, e.load(st0, f))
			}
		}
	}
	// channels the loop reads from or sends to
	isZero := func(r *Term) bool { return r.Op == "int" && r.Int.Sign() == 0 }
	chans := func(k string, dir types.ChanDir) (out []*ChanV) {
		m := mods[k]
		if m == nil || m.whole {
			return nil
		}
		for _, r := range sortedTerms(m.refs) {
			if t := e.chanT[r]; t != nil && !isZero(r) {
				c := &ChanV{Ref: r, Elem: t}
				out = append(out, c)
				vars = append(vars, loopVar{k + "/chan" + r.String(), types.NewChan(dir, t), func(st *State, fr *Frame) Value { return c }})
				entry = append(entry, nil)
			}
		}
		return out
	}
	sources, sinks := chans("g:chan.rpos", types.RecvOnly), chans("g:chan.n", types.SendRecv)
	for _, a := range sources {
		a := a
		out = append(out, &cand{name: "read within " + a.Ref.String(), eval: func(st *State, fr *Frame) *Term {
			return ts.Le(e.ghostGet(st, "chan.rpos", SInt, a.Ref), e.chanLen(st, a))
		}})
		for _, b := range sinks {
			if !types.Identical(a.Elem, b.Elem) {
				continue
			}
			a, b := a, b
			p0, n0 := e.ghostGet(st0, "chan.rpos", SInt, a.Ref), e.chanLen(st0, b)
			out = append(out, &cand{name: "relayed " + a.Ref.String() + " to " + b.Ref.String(), eval: func(st *State, fr *Frame) *Term {
				all := ts.True
				x := ts.Bound("k", SInt)
				for _, l := range e.tr.leaves(a.Elem) {
					from := e.ghostGet(st, e.chanKey(a, l), ArrSort(l.Sort), a.Ref)
					to := e.ghostGet(st, e.chanKey(b, l), ArrSort(l.Sort), b.Ref)
					was := e.ghostGet(st0, e.chanKey(b, l), ArrSort(l.Sort), b.Ref)
					at := ts.mk("select", "", l.Sort, to, x)
					src := ts.mk("select", "", l.Sort, from, ts.Add(p0, ts.Sub(x, n0)))
					n := e.chanLen(st, b)
					all = ts.And(all, ts.mk("forallp", "", SBool, x, ts.And(
						ts.Implies(ts.And(ts.Le(n0, x), ts.Lt(x, n)), ts.Eq(at, src)),
						ts.Implies(ts.Lt(x, n0), ts.Eq(at, ts.mk("select", "", l.Sort, was, x)))), at))
				}
				return all
			}})
		}
	}
	// slices sent element by element
	seenSlice := map[*Term]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if d, ok := ia.X.(ssa.Instruction); ok && body[d.Block()] {
				continue
			}
			x, ok := fr0.env[ia.X].(*SliceV)
			if !ok || seenSlice[x.Ref] {
				continue
			}
			seenSlice[x.Ref] = true
			for _, b := range sinks {
				if !types.Identical(x.Elem, b.Elem) {
					continue
				}
				b := b
				n0 := e.chanLen(st0, b)
				out = append(out, &cand{name: "sent " + ia.X.Name() + " to " + b.Ref.String(), eval: func(st *State, fr *Frame) *Term {
					all := ts.True
					k := ts.Bound("k", SInt)
					for _, l := range e.tr.leaves(x.Elem) {
						hk := "e:" + typeKey(x.Elem) + l.Path
						from := e.sel(st, e.heapGet(st, hk, ArrSort(ArrSort(l.Sort))), x.Ref)
						to := e.ghostGet(st, e.chanKey(b, l), ArrSort(l.Sort), b.Ref)
						was := e.ghostGet(st0, e.chanKey(b, l), ArrSort(l.Sort), b.Ref)
						at := ts.mk("select", "", l.Sort, to, k)
						src := ts.mk("select", "", l.Sort, from, ts.Add(x.Off, ts.Sub(k, n0)))
						n := e.chanLen(st, b)
						all = ts.And(all, ts.mk("forallp", "", SBool, k, ts.And(
							ts.Implies(ts.And(ts.Le(n0, k), ts.Lt(k, n)), ts.Eq(at, src)),
							ts.Implies(ts.Lt(k, n0), ts.Eq(at, ts.mk("select", "", l.Sort, was, k)))), at))
					}
					return all
				}})
			}
		}
	}
	// objects the loop sends were allocated before its next iteration
	for _, b := range sinks {
		b := b
		if _, ok := b.Elem.Underlying().(*types.Pointer); ok {
			out = append(out, &cand{name: "allocated in " + b.Ref.String(), eval: func(st *State, fr *Frame) *Term {
				k := ts.Bound("k", SInt)
				l := e.tr.leaves(b.Elem)[0]
				at := ts.mk("select", "", l.Sort, e.ghostGet(st, e.chanKey(b, l), ArrSort(l.Sort), b.Ref), k)
				return ts.mk("forallp", "", SBool, k, ts.Implies(
					ts.And(ts.Le(ts.IntC(0), k), ts.Lt(k, e.chanLen(st, b))),
					ts.Lt(at, e.refTerm(st.alloc))), at)
			}})
			continue
		}
		if !types.IsInterface(b.Elem) {
			continue
		}
		done := map[string]bool{}
		for blk := range body {
			for _, in := range blk.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if _, ok := mi.X.Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				c := e.tr.ctor(mi.X.Type()).Name
				if done[c] {
					continue
				}
				done[c] = true
				out = append(out, &cand{name: "allocated " + c + " in " + b.Ref.String(), eval: func(st *State, fr *Frame) *Term {
					k := ts.Bound("k", SInt)
					l := e.tr.leaves(b.Elem)[0]
					at := ts.mk("select", "", l.Sort, e.ghostGet(st, e.chanKey(b, l), ArrSort(l.Sort), b.Ref), k)
					return ts.mk("forallp", "", SBool, k, ts.Implies(
						ts.And(ts.Le(ts.IntC(0), k), ts.Lt(k, e.chanLen(st, b)), ts.Is(c, at)),
						ts.Lt(ts.Sel(c, 0, at), e.refTerm(st.alloc))), at)
				}})
			}
		}
	}
	// counters kept in ghost state
	for _, k := range []string{"g:iterpos", "g:chan.rpos", "g:chan.n"} {
		if m := mods[k]; m != nil && !m.whole {
			for _, r := range sortedTerms(m.refs) {
				r, k := r, k
				vars = append(vars, loopVar{k + "/" + r.String(), types.Typ[types.Int], func(st *State, fr *Frame) Value {
					return e.ghostGet(st, k[2:], SInt, r)
				}})
				entry = append(entry, e.ghostGet(st0, k[2:], SInt, r))
			}
		}
	}
	// invariant integer terms the loop compares against
	limits := map[*Term]bool{}
	limitTyp := map[*Term]map[types.BasicKind]bool{}
	limit := func(t *Term, ty types.Type) {
		limits[t] = true
		if b, ok := ty.Underlying().(*types.Basic); ok {
			if limitTyp[t] == nil {
				limitTyp[t] = map[types.BasicKind]bool{}
			}
			limitTyp[t][b.Kind()] = true
		}
	}
	for _, b := range header.Parent().Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if ii, isI := o.(ssa.Instruction); isI && body[ii.Block()] {
					if t := e.invariantTerm(st0, fr0, o, body); t != nil {
						limit(t, o.Type())
					}
					continue
				}
				if c, isC := o.(*ssa.Const); isC {
					if _, _, okI := intInfo(c.Type()); !okI {
						continue
					}
				}
				if v, ok := e.tryVal(st0, fr0, o).(*Term); ok && v.Sort == SInt {
					limit(v, o.Type())
				}
			}
		}
	}
	for _, v := range vars {
		if strings.HasPrefix(v.name, "g:iterpos") {
			for _, vv := range fr0.env {
				if it, ok := vv.(*IterV); ok && it.Kind == "str" {
					limits[ts.StrLen(it.X.(*Term))] = true
				}
			}
		}
	}
	mk := func(name string, f func(st *State, fr *Frame) *Term) {
		out = append(out, &cand{name: name, eval: f})
	}
	for i, v := range vars {
		v := v
		e0 := entry[i]
		if _, _, ok := intInfo(v.typ); ok {
			t0 := e0.(*Term)
			g := func(st *State, fr *Frame) *Term { return v.get(st, fr).(*Term) }
			mk(v.name+" >= entry", func(st *State, fr *Frame) *Term { return ts.Le(t0, g(st, fr)) })
			mk(v.name+" <= entry", func(st *State, fr *Frame) *Term { return ts.Le(g(st, fr), t0) })
			mk(v.name+" >= 0", func(st *State, fr *Frame) *Term { return ts.Le(ts.IntC(0), g(st, fr)) })
			mk(v.name+" >= 1", func(st *State, fr *Frame) *Term { return ts.Le(ts.IntC(1), g(st, fr)) })
			for _, l := range sortedTerms(limits) {
				l := l
				if l == t0 {
					continue
				}
				if b, ok := v.typ.Underlying().(*types.Basic); ok && limitTyp[l] != nil && !limitTyp[l][b.Kind()] {
					continue
				}
				mk(v.name+" <= "+l.str(3), func(st *State, fr *Frame) *Term { return ts.Le(g(st, fr), l) })
				mk(v.name+" < "+l.str(3), func(st *State, fr *Frame) *Term { return ts.Lt(g(st, fr), l) })
				mk(v.name+" >= "+l.str(3), func(st *State, fr *Frame) *Term { return ts.Le(l, g(st, fr)) })
				mk(v.name+" > "+l.str(3), func(st *State, fr *Frame) *Term { return ts.Lt(l, g(st, fr)) })
			}
			for j := 0; j < len(vars); j++ {
				w := vars[j]
				if j == i {
					continue
				}
				h := func(st *State, fr *Frame) *Term {
					switch x := w.get(st, fr).(type) {
					case *Term:
						return x
					case *SliceV:
						return x.Len
					}
					return nil
				}
				var w0 *Term
				switch x := entry[j].(type) {
				case *Term:
					if _, _, ok := intInfo(w.typ); !ok {
						continue
					}
					if j < i {
						continue
					}
					w0 = x
				case *SliceV:
					w0 = x.Len
				default:
					continue
				}
				d := ts.Sub(t0, w0)
				sm := ts.Add(t0, w0)
				if strings.HasPrefix(w.name, "g:iterpos") {
					mk(v.name+" - "+w.name+" <= entry", func(st *State, fr *Frame) *Term { return ts.Le(ts.Sub(g(st, fr), h(st, fr)), d) })
				}
				mk(v.name+" - "+w.name+" const", func(st *State, fr *Frame) *Term { return ts.Eq(ts.Sub(g(st, fr), h(st, fr)), d) })
				mk(v.name+" + "+w.name+" const", func(st *State, fr *Frame) *Term { return ts.Eq(ts.Add(g(st, fr), h(st, fr)), sm) })
				mk(v.name+" <= "+w.name, func(st *State, fr *Frame) *Term { return ts.Le(g(st, fr), h(st, fr)) })
				mk(v.name+" >= "+w.name, func(st *State, fr *Frame) *Term { return ts.Le(h(st, fr), g(st, fr)) })
			}
			continue
		}
		switch x := e0.(type) {
		case *SliceV:
			mk(v.name+" fresh backing", func(st *State, fr *Frame) *Term {
				s := v.get(st, fr).(*SliceV)
				return ts.Or(ts.Eq(s.Cap, ts.IntC(0)), ts.Le(e.refTerm(entryAlloc), s.Ref))
			})
			mk(v.name+" same backing", func(st *State, fr *Frame) *Term {
				s := v.get(st, fr).(*SliceV)
				return ts.And(ts.Eq(s.Ref, x.Ref), ts.Eq(s.Off, x.Off), ts.Eq(s.Cap, x.Cap))
			})
			mk(v.name+" offset 0", func(st *State, fr *Frame) *Term {
				return ts.Eq(v.get(st, fr).(*SliceV).Off, ts.IntC(0))
			})
			mk(v.name+" backing old-or-fresh", func(st *State, fr *Frame) *Term {
				s := v.get(st, fr).(*SliceV)
				return ts.Or(ts.Eq(s.Ref, x.Ref), ts.Le(e.refTerm(entryAlloc), s.Ref))
			})
		case *Term:
			mk(v.name+" unchanged", func(st *State, fr *Frame) *Term { return ts.Eq(v.get(st, fr).(*Term), x) })
			if x.Sort == SBool {
				mk(v.name+" true", func(st *State, fr *Frame) *Term { return v.get(st, fr).(*Term) })
				mk(v.name+" false", func(st *State, fr *Frame) *Term { return ts.Not(v.get(st, fr).(*Term)) })
			}
			if x.Sort == SAny && x.Op == "cons" {
				mk(v.name+" type", func(st *State, fr *Frame) *Term { return ts.Is(x.Name, v.get(st, fr).(*Term)) })
			}
		case *PtrV:
			mk(v.name+" nonnil", func(st *State, fr *Frame) *Term {
				return ts.Not(e.isNilRef(st, v.get(st, fr).(*PtrV).Ref))
			})
		}
	}
	// frame: rows and objects that existed before the loop stay as they were
	for _, k := range sortedKeys(mods) {
		k := k
		if !mods[k].whole || !(strings.HasPrefix(k, "e:") || strings.HasPrefix(k, "o:") || strings.HasPrefix(k, "g:")) {
			continue
		}
		h0 := st0.heap[k]
		if h0 == nil {
			continue
		}
		frame := func(name string, except []*Term) {
			mk(name, func(st *State, fr *Frame) *Term {
				h := st.heap[k]
				if h == h0 {
					return ts.True
				}
				r := ts.Bound("r", SInt)
				at := ts.mk("select", "", h.Sort.elem(), h, r)
				g := ts.Lt(r, e.refTerm(entryAlloc))
				for _, x := range except {
					g = ts.And(g, ts.Not(ts.Eq(r, x)))
				}
				return ts.mk("forallp", "", SBool, r, ts.Implies(g, ts.Eq(ts.Select(h, r), ts.Select(h0, r))), at)
			})
		}
		frame("frame "+k, nil)
		// all but the backing arrays the loop's own slices started with
		var own []*Term
		for i := range vars {
			if x, ok := entry[i].(*SliceV); ok && strings.HasPrefix(k, "e:"+typeKey(x.Elem)) && x.Ref.Op == "int" {
				own = append(own, x.Ref)
			}
		}
		if len(own) > 0 {
			frame("frame but own "+k, own)
		}
	}
	// maps filled from the map the loop ranges over
	for _, b := range header.Instrs {
		nx, ok := b.(*ssa.Next)
		if !ok || nx.IsString {
			continue
		}
		it, ok := e.tryVal(st0, fr0, nx.Iter).(*IterV)
		if !ok || it.Kind != "map" {
			continue
		}
		_, ks := e.mapKeys(it.M)
		src := "m:" + typeKey(it.M.T)
		for _, k := range sortedKeys(mods) {
			if mods[k].whole || !strings.HasPrefix(k, "m:") || st0.heap[k] == nil {
				continue
			}
			es := st0.heap[k].Sort.elem()
			isDom := strings.HasSuffix(k, "#dom")
			if isDom && es != KArrSort(ks, SBool) || !isDom && !strings.HasPrefix(k, src+"#val") {
				continue
			}
			for _, r := range sortedTerms(mods[k].refs) {
				k, r := k, r
				row0 := e.sel(st0, st0.heap[k], r)
				from := it.Dom
				if !isDom {
					from = e.sel(st0, st0.heap[k], it.M.Ref)
				}
				mk("copied "+k, func(st *State, fr *Frame) *Term {
					pos := e.ghostGet(st, "iterpos", SInt, it.Pos)
					row := e.sel(st, st.heap[k], r)
					x := ts.Bound("k", ks)
					at := ts.mk("select", "", es.elem(), row, x)
					seen := ts.And(ts.mk("select", "", SBool, it.Dom, x), ts.Lt(e.keyIdx(it, x), pos))
					was := ts.mk("select", "", es.elem(), row0, x)
					now := ts.Ite(seen, ts.mk("select", "", es.elem(), from, x), was)
					if isDom {
						now = ts.Or(was, seen)
					}
					return ts.mk("forallp", "", SBool, x, ts.Eq(at, now), at)
				})
			}
		}
	}
	// objects made before the loop and used in it, for declared candidates
	ptrStruct := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		_, ok = p.Elem().Underlying().(*types.Struct)
		return ok
	}
	usedIn := map[ssa.Value]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					usedIn[*o] = true
				}
			}
		}
	}
	addObj := func(v ssa.Value) {
		if !usedIn[v] {
			return
		}
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return
		}
		if sl, ok := fr0.env[v].(*SliceV); ok {
			vars = append(vars, loopVar{"obj:" + v.Name(), v.Type(), func(st *State, fr *Frame) Value { return sl }})
			return
		}
		x, ok := fr0.env[v].(*PtrV)
		if !ok {
			return
		}
		t := v.Type()
		if !ptrStruct(t) {
			pp, ok := t.Underlying().(*types.Pointer)
			if !ok || !ptrStruct(pp.Elem()) {
				return
			}
			for _, l := range e.tr.leaves(x.Elem) {
				if m := mods["o:"+x.Key+l.Path]; m != nil && (m.whole || m.refs[x.Ref]) {
					return // the variable itself changes
				}
			}
			if x, ok = e.load(st0, x).(*PtrV); !ok {
				return
			}
			t = pp.Elem()
		}
		vars = append(vars, loopVar{"obj:" + v.Name(), t, func(st *State, fr *Frame) Value { return x }})
	}
	for _, p := range fr0.fn.Params {
		addObj(p)
	}
	for _, p := range fr0.fn.FreeVars {
		addObj(p)
	}
	for _, b := range fr0.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				addObj(v)
			}
		}
	}
	// declared candidates, instantiated over variables of matching types
	for ci, f := range st0.loopInvs {
		f := f
		sig := f.Fn.Signature
		n := sig.Params().Len()
		var pick func(i int, chosen []int)
		count := 0
		pick = func(i int, chosen []int) {
			if count > 80 {
				return
			}
			if i == n {
				count++
				ch := append([]int{}, chosen...)
				nm := fmt.Sprintf("declared#%d", ci)
				for _, c := range ch {
					nm += "," + vars[c].name
				}
				mk(nm, func(st *State, fr *Frame) *Term {
					var args []Value
					for _, c := range ch {
						a := vars[c].get(st, fr)
						if t, ok := a.(*Term); ok && strings.Contains(vars[c].name, "rangeindex") {
							a = ts.Add(t, ts.IntC(1)) // the number of elements visited
						}
						args = append(args, a)
					}
					return e.evalPure(st, fr, f, args)
				})
				return
			}
			// the variable of that name, or else every one of its type
			named := false
			for _, v := range vars {
				named = named || types.Identical(v.typ, sig.Params().At(i).Type()) && strings.HasPrefix(v.name, "phi:"+sig.Params().At(i).Name()+"/")
			}
			for j, v := range vars {
				if types.Identical(v.typ, sig.Params().At(i).Type()) && (!named || strings.HasPrefix(v.name, "phi:"+sig.Params().At(i).Name()+"/")) {
					pick(i+1, append(chosen, j))
				}
			}
		}
		pick(0, nil)
	}
	return out
}

func (e *Engine) tryVal(st *State, fr *Frame, v ssa.Value) (r Value) {
	defer func() {
		if x := recover(); x != nil {
			r = nil
		}
	}()
	return e.val(st, fr, v)
}

// invariantTerm: a value computed in the loop from loop-invariant inputs
// (len(x), a field load of an unmodified object ...), evaluated at entry.
func (e *Engine) invariantTerm(st0 *State, fr0 *Frame, v ssa.Value, body map[*ssa.BasicBlock]bool) *Term {
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := x.Call.Args[0]
			var av Value
			if ii, ok := a.(ssa.Instruction); ok && body[ii.Block()] {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if p, ok := e.tryVal(st0, fr0, u.X).(*PtrV); ok {
						av = e.load(st0, p)
					}
				}
			} else {
				av = e.tryVal(st0, fr0, a)
			}
			switch s := av.(type) {
			case *SliceV:
				return s.Len
			case *Term:
				return e.ts.StrLen(s)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if p, ok := e.tryVal(st0, fr0, x.X).(*PtrV); ok {
				if t, ok := e.load(st0, p).(*Term); ok && t.Sort == SInt {
					return t
				}
			}
		}
	}
	return nil
}

// inductive: does the candidate hold again? Arithmetic candidates guessed by
// the engine get the cheap check only; the others every check.
func (e *Engine) inductive(c *cand, st *State, t *Term) bool {
	if strings.HasPrefix(c.name, "declared") || !arithOnly(t) {
		return e.proves(st, t, false) == Unsat
	}
	s := e.simp(st, t)
	if s.Op == "true" {
		return true
	}
	return e.solver.CheckGround(append(st.pc[:len(st.pc):len(st.pc)], e.ts.Not(s))) == Unsat
}

func arithOnly(t *Term) bool { return arithOnlySeen(t, map[*Term]bool{}) }

func arithOnlySeen(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Op {
	case "forall", "forallp", "select":
		return false
	}
	for _, a := range t.Args {
		if !arithOnlySeen(a, seen) {
			return false
		}
	}
	return true
}

// evalPure runs a function on a copy of the state and merges its results
// into one term. Typing facts met on the way hold whatever the path, so they
// are no conditions of the result: they are assumed in st.
func (e *Engine) evalPure(st *State, fr *Frame, f *FuncV, args []Value) *Term {
	r, facts := e.evalPureF(st, fr, f, args)
	for _, t := range facts {
		e.assumeFact(st, t)
	}
	return r
}

func (e *Engine) evalPureF(st *State, fr *Frame, f *FuncV, args []Value) (*Term, []*Term) {
	type leaf struct{ cond, val *Term }
	var ls []leaf
	var facts []*Term
	seen := map[*Term]bool{}
	base := len(st.pc)
	s := st.clone()
	split := func(s *State) *Term {
		isFact := map[int]bool{}
		for _, i := range s.tf {
			isFact[i] = true
		}
		var cs []*Term
		for i := base; i < len(s.pc); i++ {
			if !isFact[i] {
				cs = append(cs, s.pc[i])
			} else if !seen[s.pc[i]] {
				seen[s.pc[i]] = true
				facts = append(facts, s.pc[i])
			}
		}
		return e.ts.And(cs...)
	}
	e.pure++
	func() {
		defer func() { e.pure-- }()
		e.callFn(s, f.Fn, args, f.Bindings, fr, false, func(s2 *State, o Outcome) {
			if o.Panic != nil {
				ls = append(ls, leaf{split(s2), nil})
				return
			}
			t, ok := o.Ret.(*Term)
			if !ok {
				unsup("pure result %T", o.Ret)
			}
			ls = append(ls, leaf{split(s2), t})
		})
	}()
	var r *Term
	for _, l := range ls {
		v := l.val
		if v == nil {
			v = e.ts.False
		}
		if r == nil {
			r = v
		} else {
			r = e.ts.Ite(l.cond, v, r)
		}
	}
	if r == nil {
		return e.ts.True, facts // unreachable
	}
	return r, facts
}

func (e *Engine) encodeMaybe(v Value, t types.Type) (r []*Term) {
	defer func() {
		if x := recover(); x != nil {
			r = nil
		}
	}()
	return e.encode(v, t)
}
