package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

var zeroBig = big.NewInt(0)
var oneBig = big.NewInt(1)
var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

type State struct {
	pc       []*Term
	facts    map[*Term]bool
	tags     map[*Term]string // known dynamic type constructor of an Any term
	typed    map[*Term]bool
	bounds   map[*Term][2]*big.Int
	heap     map[string]*Term
	alloc    int64
	panics   []*panicRec
	path     []string
	dead     bool
	loopInvs []*FuncV
	last     map[string]Outcome2
	made     []*ChanV
	lockBase map[string]*Term // lock counts when the current goroutine began
	tf       []int            // positions in pc of typing facts (valid whatever the path)
}

// Outcome2 is the latest call through an uninterpreted contract.
type Outcome2 struct {
	Args []Value
	Ret  Value
	Res  *types.Tuple
}

type panicRec struct {
	val       Value
	what      string
	recovered bool
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, dead: s.dead}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.path = s.path[:len(s.path):len(s.path)]
	n.loopInvs = s.loopInvs
	n.lockBase = s.lockBase
	n.last = cloneMap(s.last)
	n.made = s.made[:len(s.made):len(s.made)]
	n.tf = s.tf[:len(s.tf):len(s.tf)]
	n.facts = cloneMap(s.facts)
	n.tags = cloneMap(s.tags)
	n.typed = cloneMap(s.typed)
	n.bounds = cloneMap(s.bounds)
	n.heap = cloneMap(s.heap)
	for _, p := range s.panics {
		c := *p
		n.panics = append(n.panics, &c)
	}
	return n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+8)
	for k, v := range m {
		r[k] = v
	}
	return r
}

type Outcome struct {
	Panic *panicRec
	Ret   Value // nil, Value, or TupleV
}

type Deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]Value
	bindings   []Value
	defers     []Deferred
	loops      []*LoopAct
	parent     *Frame
	depth      int
	isDeferred bool
	k          func(*State, Outcome)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = cloneMap(f.env)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

type Obligation struct {
	Name   string
	Kind   string
	Pos    string
	Status string // discharged, refuted, unknown
	Detail string
	Path   []string
	Count  int
}

type Engine struct {
	ld        *Loaded
	ts        *TermStore
	tr        *TypeReg
	solver    *Solver
	iptrs     map[*Term]*PtrV
	fns       []*FuncV
	run       *ContractRun
	dry       int
	pure      int
	factDepth int
	ifaces    map[string]*types.Interface
	chanT     map[*Term]types.Type // element types of the channels used
}

type budget struct{}

func NewEngine(ld *Loaded) *Engine {
	tr := NewTypeReg(ld.Module)
	ts := NewTermStore(tr)
	e := &Engine{ld: ld, ts: ts, tr: tr, iptrs: map[*Term]*PtrV{}, ifaces: map[string]*types.Interface{}, chanT: map[*Term]types.Type{}}
	e.solver = NewSolver(ts)
	e.solver.eng = e
	return e
}

func (e *Engine) newState() *State {
	return &State{facts: map[*Term]bool{}, tags: map[*Term]string{}, typed: map[*Term]bool{}, bounds: map[*Term][2]*big.Int{}, heap: map[string]*Term{}, alloc: 1}
}

// ---- facts ----

func (e *Engine) assume(st *State, t *Term) {
	if t.Op == "true" {
		return
	}
	if t.Op == "false" {
		st.dead = true
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			e.assume(st, a)
		}
		return
	}
	if v, ok := st.facts[t]; ok && v {
		return
	}
	if t.Op == "not" {
		if v, ok := e.decide(st, t.Args[0]); ok && v {
			st.dead = true
			return
		}
	} else if v, ok := e.decide(st, t); ok && !v {
		st.dead = true
		return
	}
	if e.factDepth > 0 {
		st.tf = append(st.tf, len(st.pc))
	}
	st.pc = append(st.pc, t)
	e.learn(st, t, true)
}

func (e *Engine) learn(st *State, t *Term, v bool) {
	if t.Op == "not" {
		e.learn(st, t.Args[0], !v)
		return
	}
	st.facts[t] = v
	if v && t.Op == "is" {
		st.tags[t.Args[0]] = t.Name
		e.tagTyping(st, t)
	}
	if !v && t.Op == "or" {
		for _, a := range t.Args {
			e.learn(st, a, false)
		}
	}
	if v && t.Op == "and" {
		for _, a := range t.Args {
			e.learn(st, a, true)
		}
	}
	if v && t.Op == "=" && t.Args[0].Sort == SInt {
		// remember equalities with constants
		a, b := t.Args[0], t.Args[1]
		if a.Op == "int" {
			a, b = b, a
		}
		if b.Op == "int" {
			st.bounds[a] = [2]*big.Int{b.Int, b.Int}
		}
	}
	if t.Op == "<=" {
		e.learnBound(st, t, v)
	}
}

func (e *Engine) learnBound(st *State, t *Term, v bool) {
	// a <= b (v) or b < a (!v); keep constant bounds on atoms
	a, b := t.Args[0], t.Args[1]
	upd := func(x *Term, lo, hi *big.Int) {
		cl, ch := e.rangeOf(st, x)
		if lo != nil && (cl == nil || lo.Cmp(cl) > 0) {
			cl = lo
		}
		if hi != nil && (ch == nil || hi.Cmp(ch) < 0) {
			ch = hi
		}
		st.bounds[x] = [2]*big.Int{cl, ch}
	}
	one := big.NewInt(1)
	if b.Op == "int" {
		if v {
			upd(a, nil, b.Int)
		} else {
			upd(a, new(big.Int).Add(b.Int, one), nil)
		}
	} else if a.Op == "int" {
		if v {
			upd(b, a.Int, nil)
		} else {
			upd(b, nil, new(big.Int).Sub(a.Int, one))
		}
	} else {
		// symbolic upper bound: propagate intervals once
		al, ah := e.rangeOf(st, a)
		bl, bh := e.rangeOf(st, b)
		if v {
			if bh != nil && (ah == nil || bh.Cmp(ah) < 0) {
				upd(a, nil, bh)
			}
			if al != nil && (bl == nil || al.Cmp(bl) > 0) {
				upd(b, al, nil)
			}
		} else {
			if ah != nil && (bh == nil || ah.Cmp(bh) <= 0) {
				upd(b, nil, new(big.Int).Sub(ah, one))
			}
			if bl != nil && (al == nil || bl.Cmp(al) >= 0) {
				upd(a, new(big.Int).Add(bl, one), nil)
			}
		}
	}
}

func (e *Engine) tagTyping(st *State, is *Term) {
	// nothing yet: payload typing is added on unbox
}

// fewValues: the comparison can take few different values.
func (e *Engine) fewValues(st *State, c *Term) bool {
	if c.Op == "not" {
		return e.fewValues(st, c.Args[0])
	}
	if c.Op != "<=" && c.Op != "=" {
		return true
	}
	for _, a := range c.Args {
		if a.Sort != SInt {
			return true
		}
		lo, hi := e.rangeOf(st, a)
		if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(64)) > 0 {
			return false
		}
	}
	return true
}

func (e *Engine) rangeOf(st *State, t *Term) (lo, hi *big.Int) {
	if b, ok := st.bounds[t]; ok {
		return b[0], b[1]
	}
	switch t.Op {
	case "int":
		return t.Int, t.Int
	case "strlen":
		return zeroBig, maxLen
	case "strat":
		return zeroBig, big.NewInt(255)
	case "+":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.Args {
			l, h := e.rangeOf(st, a)
			if l == nil || lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, l)
			}
			if h == nil || hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, h)
			}
		}
		return
	case "cmul":
		l, h := e.rangeOf(st, t.Args[1])
		k := t.Args[0].Int
		mul := func(x *big.Int) *big.Int {
			if x == nil {
				return nil
			}
			return new(big.Int).Mul(x, k)
		}
		if k.Sign() >= 0 {
			return mul(l), mul(h)
		}
		return mul(h), mul(l)
	case "ite":
		l1, h1 := e.rangeOf(st, t.Args[1])
		l2, h2 := e.rangeOf(st, t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "wrap":
		n := strings.TrimPrefix(t.Name, "u")
		var bits int
		fmt.Sscanf(n, "wrap%d", &bits)
		return intRange(bits, n == t.Name)
	}
	return nil, nil
}

// decide: truth of an atom under the path's literal facts.
func (e *Engine) decide(st *State, t *Term) (bool, bool) {
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	switch t.Op {
	case "is":
		x := t.Args[0]
		if tag, ok := st.tags[x]; ok {
			return tag == t.Name, true
		}
		// implements-facts
		if c := e.tr.byName(t.Name); c != nil {
			for key, it := range e.ifaces {
				if v, ok := st.facts[e.ts.mk("uf", "impl$"+key, SBool, x)]; ok {
					if types.Implements(c.Type, it) != v {
						return false, true
					}
				}
			}
		}
		if t.Name == "anil" {
			for key := range e.ifaces {
				if v, ok := st.facts[e.ts.mk("uf", "impl$"+key, SBool, x)]; ok && v {
					return false, true
				}
			}
		}
	case "uf":
		if strings.HasPrefix(t.Name, "impl$") {
			x := t.Args[0]
			it := e.ifaces[t.Name[5:]]
			tag := ""
			if x.Op == "cons" {
				tag = x.Name
			} else if tg, ok := st.tags[x]; ok {
				tag = tg
			}
			if tag == "anil" {
				return false, true
			}
			if c := e.tr.byName(tag); c != nil {
				return types.Implements(c.Type, it), true
			}
		}
	case "<=":
		al, ah := e.rangeOf(st, t.Args[0])
		bl, bh := e.rangeOf(st, t.Args[1])
		if ah != nil && bl != nil && ah.Cmp(bl) <= 0 {
			return true, true
		}
		if al != nil && bh != nil && al.Cmp(bh) > 0 {
			return false, true
		}
	case "=":
		a, b := t.Args[0], t.Args[1]
		if a.Sort == SInt {
			al, ah := e.rangeOf(st, a)
			bl, bh := e.rangeOf(st, b)
			if al != nil && bh != nil && al.Cmp(bh) > 0 || ah != nil && bl != nil && ah.Cmp(bl) < 0 {
				return false, true
			}
			if e.ts.distinctRefs(a, b) {
				return false, true
			}
		}
	}
	return false, false
}

func (e *Engine) simp(st *State, t *Term) *Term {
	return e.simp1(st, t, 0)
}
func (e *Engine) simp1(st *State, t *Term, d int) *Term {
	if t.Sort == SBool {
		if t.Op == "true" || t.Op == "false" {
			return t
		}
		if v, ok := e.decide(st, t); ok {
			return e.ts.Bool(v)
		}
	}
	if d > 12 {
		return t
	}
	switch t.Op {
	case "not", "and", "or":
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = e.simp1(st, a, d+1)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			return e.ts.rebuild(t, args)
		}
	case "ite":
		c := e.simp1(st, t.Args[0], d+1)
		if c.Op == "true" {
			return e.simp1(st, t.Args[1], d+1)
		}
		if c.Op == "false" {
			return e.simp1(st, t.Args[2], d+1)
		}
		if t.Sort == SBool {
			return e.ts.Ite(c, e.simp1(st, t.Args[1], d+1), e.simp1(st, t.Args[2], d+1))
		}
	}
	return t
}

// branch explores both outcomes of cond as far as they are feasible.
func (e *Engine) branch(st *State, cond *Term, what string, kt, kf func(*State)) {
	if st.dead {
		return
	}
	c := e.simp(st, cond)
	if c.Op == "true" {
		kt(st)
		return
	}
	if c.Op == "false" {
		kf(st)
		return
	}
	e.tick()
	canT, canF := true, true
	if !e.freeAtom(c) {
		if e.infeasible(st, c) {
			canT = false
		} else if e.infeasible(st, e.ts.Not(c)) {
			canF = false
		}
	}
	if canT && canF {
		s2 := st.clone()
		e.assume(st, c)
		if what != "" {
			st.path = append(st.path, what+" = true")
		}
		if !st.dead {
			kt(st)
		}
		e.assume(s2, e.ts.Not(c))
		if what != "" {
			s2.path = append(s2.path, what+" = false")
		}
		if !s2.dead {
			kf(s2)
		}
		return
	}
	if canT {
		e.assume(st, c)
		kt(st)
		return
	}
	if canF {
		e.assume(st, e.ts.Not(c))
		kf(st)
	}
}

func (e *Engine) freeAtom(c *Term) bool {
	if c.Op == "not" {
		c = c.Args[0]
	}
	if c.Op == "is" {
		return c.Args[0].Op != "ite"
	}
	return c.Op == "uf" && strings.HasPrefix(c.Name, "impl$")
}

func (e *Engine) infeasible(st *State, c *Term) bool {
	e.inTime()
	a, _ := e.solver.Check(append(st.pc[:len(st.pc):len(st.pc)], c), true)
	return a == Unsat
}

// proves: pc entails t
func (e *Engine) proves(st *State, t *Term, quick bool) Answer {
	s := e.simp(st, t)
	if s.Op == "true" {
		return Unsat
	}
	e.inTime()
	l := 1
	if quick {
		l = 0
	}
	a, _ := e.solver.CheckL(append(st.pc[:len(st.pc):len(st.pc)], e.ts.Not(t)), l)
	return a
}

// provesHard spends on t what an obligation gets.
func (e *Engine) provesHard(st *State, t *Term) bool {
	e.inTime()
	a, _ := e.solver.CheckL(append(st.pc[:len(st.pc):len(st.pc)], e.ts.Not(e.simp(st, t))), 2)
	return a == Unsat
}

func (e *Engine) tick() {
	if e.run != nil {
		e.run.Steps++
		if e.run.Steps > e.run.MaxSteps {
			panic(unsupported{"verification budget exceeded"})
		}
		e.inTime()
	}
}

// stopAt (unix nanoseconds, 0: never) ends every verification: a violation
// with its failing input is known, or the time of the whole check is up.
var stopAt atomic.Int64

func (e *Engine) inTime() {
	if e.run == nil {
		return
	}
	now := time.Now()
	if at := stopAt.Load(); now.After(e.run.Deadline) || at != 0 && now.UnixNano() > at {
		panic(unsupported{"verification budget exceeded"})
	}
}

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.ld.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, e.ld.Dir+"/"), q.Line)
}

// ---- obligations ----

func (e *Engine) obligation(st *State, kind, name, pos string, goal *Term) {
	if e.dry > 0 || e.pure > 0 || st.dead {
		return
	}
	e.tick()
	key := kind + "|" + name + "|" + pos
	ob := e.run.Obs[key]
	if ob == nil {
		ob = &Obligation{Name: name, Kind: kind, Pos: pos, Status: "discharged"}
		e.run.Obs[key] = ob
		e.run.ObOrder = append(e.run.ObOrder, key)
	}
	ob.Count++
	e.run.VCs++
	g := e.simp(st, goal)
	ans, detail := Unsat, "simplifier"
	if g.Op != "true" {
		level := 2
		if ob.Status != "discharged" {
			level = 0 // already failing: only looking for a refutation
		}
		ans, detail = e.solver.CheckL(append(st.pc[:len(st.pc):len(st.pc)], e.ts.Not(goal)), level)
	}
	if ans == Unsat {
		e.run.VCDischarged++
		return
	}
	st2 := "unknown"
	if ans == Sat {
		st2 = "refuted"
	}
	if ob.Status == "discharged" || ob.Status == "unknown" && st2 == "refuted" {
		ob.Status = st2
		ob.Detail = detail + "\n goal: " + goal.str(8)
		ob.Path = append([]string{}, st.path...)
		if e.run.DumpDir != "" {
			e.run.dump(e, key, append(st.pc[:len(st.pc):len(st.pc)], e.ts.Not(goal)))
		}
	}
}

// ---- calls ----

func (e *Engine) callFn(st *State, fn *ssa.Function, args []Value, bindings []Value, parent *Frame, deferred bool, k func(*State, Outcome)) {
	if st.dead {
		return
	}
	e.tick()
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		unsup("call depth: %s", fn)
	}
	rec := 0
	for p := parent; p != nil; p = p.parent {
		if p.fn == fn {
			rec++
		}
	}
	if rec > e.run.MaxRec {
		unsup("recursion without contract: %s", fn)
	}
	if !strings.Contains(e.ld.Fset.Position(fn.Pos()).Filename, "zz_verif_") {
		e.run.Inlined[shortFn(fn)] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bindings: bindings, parent: parent, depth: depth, isDeferred: deferred, k: k}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity %s: %d args", fn, len(args)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		fr.env[b] = bindings[i]
	}
	e.block(st, fr, fn.Blocks[0], nil)
}

func (e *Engine) ret(st *State, fr *Frame, o Outcome) {
	if st.dead {
		return
	}
	for _, l := range fr.loops {
		if l.dry {
			if l.onExit != nil {
				l.onExit(st)
			}
			return
		}
	}
	fr.k(st, o)
}

// raise a panic in the frame: run defers, then recover or propagate.
func (e *Engine) raise(st *State, fr *Frame, rec *panicRec) {
	if st.dead {
		return
	}
	for _, l := range fr.loops {
		if l.dry {
			return
		}
	}
	fr = fr.clone()
	fr.loops = nil
	if len(fr.defers) == 0 {
		fr.k(st, Outcome{Panic: rec})
		return
	}
	st.panics = append(st.panics, rec)
	e.runDefers(st, fr, func(st *State, fr *Frame) {
		top := st.panics[len(st.panics)-1]
		st.panics = st.panics[:len(st.panics)-1]
		if top.recovered {
			if fr.fn.Recover != nil {
				e.block(st, fr, fr.fn.Recover, nil)
				return
			}
			var z Value
			res := fr.fn.Signature.Results()
			if res.Len() == 1 {
				z = e.zero(res.At(0).Type())
			} else if res.Len() > 1 {
				var tv TupleV
				for i := 0; i < res.Len(); i++ {
					tv = append(tv, e.zero(res.At(i).Type()))
				}
				z = tv
			}
			fr.k(st, Outcome{Ret: z})
			return
		}
		fr.k(st, Outcome{Panic: top})
	})
}

func (e *Engine) runDefers(st *State, fr *Frame, k func(*State, *Frame)) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	e.doCall(st, fr, d.call, d.fn, d.args, d.pos, true, func(st *State, o Outcome) {
		f2 := fr.clone()
		if o.Panic != nil {
			// replaces a panic in flight
			if len(st.panics) > 0 {
				st.panics[len(st.panics)-1] = o.Panic
				e.runDefers(st, f2, k)
				return
			}
			e.raise(st, f2, o.Panic)
			return
		}
		e.runDefers(st, f2, k)
	})
}

// check a runtime-panic condition; continue in k when it does not occur.
func (e *Engine) guard(st *State, fr *Frame, bad *Term, what string, pos token.Pos, k func(*State)) {
	b := e.simp(st, bad)
	if b.Op == "false" {
		e.countSafe(what, pos)
		k(st)
		return
	}
	if b.Op != "true" && e.infeasible(st, b) {
		e.countSafe(what, pos)
		e.assume(st, e.ts.Not(b))
		k(st)
		return
	}
	if b.Op == "true" {
		e.raise(st, fr, &panicRec{what: what + " at " + e.posOf(pos), val: e.ts.UF("rtpanic$"+sanitize(what), SAny)})
		return
	}
	s2 := st.clone()
	e.assume(st, e.ts.Not(b))
	f2 := fr.clone()
	k(st)
	e.assume(s2, b)
	s2.path = append(s2.path, what)
	e.raise(s2, f2, &panicRec{what: what + " at " + e.posOf(pos), val: e.ts.UF("rtpanic$"+sanitize(what), SAny)})
}

func (e *Engine) countSafe(what string, pos token.Pos) {
	if e.dry > 0 || e.pure > 0 {
		return
	}
	e.run.VCs++
	e.run.VCDischarged++
	key := "safety|" + what + "|" + e.posOf(pos)
	if e.run.Obs[key] == nil {
		e.run.Obs[key] = &Obligation{Name: what, Kind: "safety", Pos: e.posOf(pos), Status: "discharged"}
		e.run.ObOrder = append(e.run.ObOrder, key)
	}
	e.run.Obs[key].Count++
}

// ---- blocks ----

func (e *Engine) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	// leaving loops?
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if top.body[to] {
			break
		}
		if top.dry {
			if top.onExit != nil {
				top.onExit(st)
			}
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	// phi values along the edge
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	vals := make([]Value, len(phis))
	if len(phis) > 0 {
		ix := -1
		for i, p := range to.Preds {
			if p == from {
				ix = i
			}
		}
		for i, p := range phis {
			vals[i] = e.val(st, fr, p.Edges[ix])
		}
	}
	if body := e.ld.loopBody(to); body != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
			act := fr.loops[len(fr.loops)-1]
			act.back(st, fr, phis, vals)
			return
		}
		e.enterLoop(st, fr, to, body, phis, vals)
		return
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	e.block(st, fr, to, from)
}

func (e *Engine) block(st *State, fr *Frame, b *ssa.BasicBlock, prev *ssa.BasicBlock) {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	e.run_(st, fr, b, i)
}

func (e *Engine) run_(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		if e.instr(st, fr, b, i) {
			return // continuation took over
		}
	}
}

// instr executes one instruction. It returns true when control was handed to
// a continuation (fork, call, terminator).
func (e *Engine) instr(st *State, fr *Frame, b *ssa.BasicBlock, i int) bool {
	ts := e.ts
	next := func(st *State, fr *Frame) { e.run_(st, fr, b, i+1) }
	switch in := b.Instrs[i].(type) {
	case *ssa.DebugRef:
		return false
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		fr.env[in] = e.allocObj(st, t)
		return false
	case *ssa.BinOp:
		return e.binop(st, fr, in, next)
	case *ssa.UnOp:
		return e.unop(st, fr, in, next)
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "copy") {
			for _, a := range in.Call.Args {
				e.guarded(st, fr, a, in.Pos())
			}
		}
		fn, args := e.callTarget(st, fr, &in.Call)
		e.doCall(st, fr, &in.Call, fn, args, in.Pos(), false, func(st *State, o Outcome) {
			f2 := fr.clone()
			if o.Panic != nil {
				e.raise(st, f2, o.Panic)
				return
			}
			if o.Ret != nil {
				f2.env[in] = o.Ret
			}
			next(st, f2)
		})
		return true
	case *ssa.ChangeInterface:
		fr.env[in] = e.val(st, fr, in.X)
		return false
	case *ssa.ChangeType:
		v := e.val(st, fr, in.X)
		fr.env[in] = e.retype(v, in.Type())
		return false
	case *ssa.Convert:
		fr.env[in] = e.convert(st, fr, e.val(st, fr, in.X), in.X.Type(), in.Type())
		return false
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.Defer:
		fn, args := e.callTarget(st, fr, &in.Call)
		fr.defers = append(fr.defers, Deferred{&in.Call, fn, args, in.Pos()})
		return false
	case *ssa.Extract:
		fr.env[in] = e.val(st, fr, in.Tuple).(TupleV)[in.Index]
		return false
	case *ssa.Field:
		v := e.val(st, fr, in.X)
		s, ok := v.(*StructV)
		if !ok {
			f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
			fr.env[in] = e.ufCall(st, "field$"+typeKey(in.X.Type())+"."+f.Name(), e.encode(v, in.X.Type()), f.Type())
			return false
		}
		fr.env[in] = s.Fields[in.Field]
		return false
	case *ssa.FieldAddr:
		p := e.val(st, fr, in.X).(*PtrV)
		f := p.Elem.Underlying().(*types.Struct).Field(in.Field)
		e.guard(st, fr, e.isNilRef(st, p.Ref), "nil dereference", in.Pos(), func(st *State) {
			f2 := fr
			f2.env[in] = &PtrV{Ref: p.Ref, Key: p.Key + "." + f.Name(), Idx: p.Idx, Elem: f.Type()}
			next(st, f2)
		})
		return true
	case *ssa.Go:
		fn, args := e.callTarget(st, fr, &in.Call)
		e.run.assumption("goroutines are verified as sequential code run at the point of the go statement (no interleaving)")
		// locks held here are not held by the goroutine
		base := st.lockBase
		st.lockBase = map[string]*Term{}
		for k, v := range st.heap {
			if strings.HasPrefix(k, "g:lock$") {
				st.lockBase[k[2:]] = v
			}
		}
		e.doCall(st, fr, &in.Call, fn, args, in.Pos(), false, func(st *State, o Outcome) {
			st.lockBase = base
			f2 := fr.clone()
			if o.Panic != nil {
				// a panic in a goroutine kills the process
				f2.defers = nil
				e.raise(st, f2, o.Panic)
				return
			}
			next(st, f2)
		})
		return true
	case *ssa.If:
		c := e.val(st, fr, in.Cond).(*Term)
		if n := len(fr.loops); n > 0 && fr.loops[n-1].header == b && fr.loops[n-1].unroll {
			s := e.simp(st, c)
			if s.Op != "true" && s.Op != "false" {
				// not decided: switch to the invariant rule from the snapshot
				fr.loops[n-1].cut()
				return true
			}
			if c.Op != "true" && c.Op != "false" && fr.loops[n-1].body[b.Succs[map[bool]int{true: 0, false: 1}[s.Op == "true"]]] && !e.fewValues(st, c) {
				// decided this time round only, by a lower bound
				fr.loops[n-1].cut()
				return true
			}
		}
		what := ""
		if pos := e.condPos(in); pos != "" {
			what = pos
		}
		fr2 := fr.clone()
		e.branch(st, c, what, func(st *State) { e.jump(st, fr, b, b.Succs[0]) }, func(st *State) { e.jump(st, fr2, b, b.Succs[1]) })
		return true
	case *ssa.Index:
		x := e.val(st, fr, in.X)
		idx := e.val(st, fr, in.Index).(*Term)
		switch v := x.(type) {
		case *Term: // string
			bad := ts.Or(ts.Lt(idx, ts.IntC(0)), ts.Le(ts.StrLen(v), idx))
			e.guard(st, fr, bad, "index out of range", in.Pos(), func(st *State) {
				r := ts.StrAt(v, idx)
				fr.env[in] = r
				e.typing(st, r, in.Type())
				next(st, fr)
			})
			return true
		case *ArrayV:
			bad := ts.Or(ts.Lt(idx, ts.IntC(0)), ts.Le(ts.IntC(v.T.Len()), idx))
			e.guard(st, fr, bad, "index out of range", in.Pos(), func(st *State) {
				var ls []*Term
				for _, l := range e.tr.leaves(v.T.Elem()) {
					ls = append(ls, ts.Select(v.Arr[l.Path], idx))
				}
				fr.env[in] = e.decode(ls, v.T.Elem())
				next(st, fr)
			})
			return true
		}
		unsup("Index on %T", x)
	case *ssa.IndexAddr:
		x := e.val(st, fr, in.X)
		idx := e.val(st, fr, in.Index).(*Term)
		switch v := x.(type) {
		case *SliceV:
			bad := ts.Or(ts.Lt(idx, ts.IntC(0)), ts.Le(v.Len, idx))
			e.guard(st, fr, bad, "index out of range", in.Pos(), func(st *State) {
				fr.env[in] = &PtrV{Ref: v.Ref, Key: typeKey(v.Elem), Idx: ts.Add(v.Off, idx), Elem: v.Elem}
				next(st, fr)
			})
			return true
		case *PtrV:
			at := v.Elem.Underlying().(*types.Array)
			bad := ts.Or(ts.Lt(idx, ts.IntC(0)), ts.Le(ts.IntC(at.Len()), idx))
			e.guard(st, fr, bad, "index out of range", in.Pos(), func(st *State) {
				if e.table(in.X) != nil {
					fr.env[in] = &PtrV{Ref: ts.IntC(1), Key: typeKey(at.Elem()), Idx: idx, Elem: at.Elem()}
					next(st, fr)
					return
				}
				fr.env[in] = &PtrV{Ref: e.arrayRef(st, v), Key: typeKey(at.Elem()), Idx: idx, Elem: at.Elem()}
				next(st, fr)
			})
			return true
		}
		unsup("IndexAddr on %T", x)
	case *ssa.Jump:
		e.jump(st, fr, b, b.Succs[0])
		return true
	case *ssa.Lookup:
		e.guarded(st, fr, in.X, in.Pos())
		x := e.val(st, fr, in.X)
		key := e.val(st, fr, in.Index)
		if s, ok := x.(*Term); ok { // string lookup
			idx := key.(*Term)
			bad := ts.Or(ts.Lt(idx, ts.IntC(0)), ts.Le(ts.StrLen(s), idx))
			e.guard(st, fr, bad, "index out of range", in.Pos(), func(st *State) {
				r := ts.StrAt(s, idx)
				e.typing(st, r, in.Type())
				fr.env[in] = r
				next(st, fr)
			})
			return true
		}
		m := x.(*MapV)
		v, ok := e.constMapGet(in.X, key, m)
		if v == nil {
			v, ok = e.mapGet(st, m, key)
		}
		if in.CommaOk {
			fr.env[in] = TupleV{v, ok}
		} else {
			fr.env[in] = v
		}
		return false
	case *ssa.MakeChan:
		r := e.newRef(st)
		e.ghostSet(st, "chan.n", SInt, r, ts.IntC(0))
		e.ghostSet(st, "chan.closed", SBool, r, ts.False)
		e.ghostSet(st, rposKey(in.Type().Underlying().(*types.Chan).Elem()), SInt, r, ts.IntC(0))
		c := &ChanV{r, in.Type().Underlying().(*types.Chan).Elem()}
		st.made = append(st.made, c)
		fr.env[in] = c
		return false
	case *ssa.MakeClosure:
		f := &FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			f.Bindings = append(f.Bindings, e.val(st, fr, x))
		}
		fr.env[in] = f
		return false
	case *ssa.MakeInterface:
		fr.env[in] = e.box(e.val(st, fr, in.X), in.X.Type())
		return false
	case *ssa.MakeMap:
		m := &MapV{e.newRef(st), in.Type().Underlying().(*types.Map)}
		e.mapInit(st, m)
		fr.env[in] = m
		return false
	case *ssa.MakeSlice:
		n := e.val(st, fr, in.Len).(*Term)
		c := e.val(st, fr, in.Cap).(*Term)
		el := in.Type().Underlying().(*types.Slice).Elem()
		bad := ts.Or(ts.Lt(n, ts.IntC(0)), ts.Lt(c, n), ts.Lt(ts.IntB(maxLen), c))
		e.guard(st, fr, bad, "makeslice: len out of range", in.Pos(), func(st *State) {
			ref := e.newRef(st)
			for _, l := range e.tr.leaves(el) {
				k := "e:" + typeKey(el) + l.Path
				st.heap[k] = ts.Store(e.heapGet(st, k, ArrSort(ArrSort(l.Sort))), ref, ts.ConstArr(ArrSort(l.Sort), e.zeroLeaf(l.Sort)))
			}
			fr.env[in] = &SliceV{ref, ts.IntC(0), n, c, el}
			next(st, fr)
		})
		return true
	case *ssa.MapUpdate:
		e.guarded(st, fr, in.Map, in.Pos())
		m := e.val(st, fr, in.Map).(*MapV)
		k := e.val(st, fr, in.Key)
		v := e.val(st, fr, in.Value)
		e.guard(st, fr, e.isNilRef(st, m.Ref), "assignment to nil map", in.Pos(), func(st *State) {
			e.mapSet(st, m, k, v)
			next(st, fr)
		})
		return true
	case *ssa.Next:
		return e.next(st, fr, in, next)
	case *ssa.Panic:
		v := e.val(st, fr, in.X)
		e.raise(st, fr, &panicRec{val: v, what: "panic at " + e.posOf(in.Pos())})
		return true
	case *ssa.Range:
		e.guarded(st, fr, in.X, in.Pos())
		it := &IterV{X: e.val(st, fr, in.X), Pos: e.newRef(st)}
		e.ghostSet(st, "iterpos", SInt, it.Pos, ts.IntC(0))
		if m, ok := it.X.(*MapV); ok {
			it.Kind = "map"
			it.M = m
			it.Dom = e.mapDom(st, m)
			n := e.mapLen(st, m)
			_, ks := e.mapKeys(m)
			b := ts.Bound("k", ks)
			at := ts.mk("select", "", SBool, it.Dom, b)
			i := e.keyIdx(it, b)
			e.assume(st, ts.Or(e.isNilRef(st, m.Ref), ts.mk("forallp", "", SBool, b, ts.Implies(at, ts.And(
				ts.Le(ts.IntC(0), i), ts.Lt(i, n), ts.Eq(e.keyAt(it, ks, i), b))), at)))
		} else {
			it.Kind = "str"
		}
		fr.env[in] = it
		return false
	case *ssa.Return:
		var r Value
		switch len(in.Results) {
		case 0:
		case 1:
			r = e.val(st, fr, in.Results[0])
		default:
			var t TupleV
			for _, x := range in.Results {
				t = append(t, e.val(st, fr, x))
			}
			r = t
		}
		e.ret(st, fr, Outcome{Ret: r})
		return true
	case *ssa.RunDefers:
		e.runDefers(st, fr, func(st *State, f2 *Frame) { next(st, f2) })
		return true
	case *ssa.Select:
		e.selectStmt(st, fr, in, next)
		return true
	case *ssa.Send:
		c := e.val(st, fr, in.Chan).(*ChanV)
		v := e.val(st, fr, in.X)
		e.send(st, fr, c, v, in.X.Type(), in.Pos(), func(st *State) { next(st, fr) })
		return true
	case *ssa.Slice:
		return e.sliceOp(st, fr, in, next)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.Store:
		p := e.val(st, fr, in.Addr).(*PtrV)
		v := e.val(st, fr, in.Val)
		e.guard(st, fr, e.isNilRef(st, p.Ref), "nil dereference", in.Pos(), func(st *State) {
			e.guarded(st, fr, in.Addr, in.Pos())
			e.store(st, p, v)
			next(st, fr)
		})
		return true
	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, in, next)
	}
	unsup("instruction %T %s", b.Instrs[i], b.Instrs[i])
	return true
}

func (e *Engine) condPos(in *ssa.If) string {
	p := in.Cond.Pos()
	if !p.IsValid() {
		return ""
	}
	return e.posOf(p) + " " + in.Cond.Name()
}

func (e *Engine) isNilRef(st *State, r *Term) *Term {
	if r.Op == "int" {
		return e.ts.Bool(r.Int.Sign() == 0)
	}
	if r.Op == "uf" && strings.HasPrefix(r.Name, "iptr") {
		return e.ts.False
	}
	if r.Op == "const" && strings.HasPrefix(r.Name, "global$") {
		return e.ts.False
	}
	return e.ts.Eq(r, e.ts.IntC(0))
}

func (e *Engine) retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		return &StructV{T: t, Fields: x.Fields}
	case *PtrV:
		el := t.Underlying().(*types.Pointer).Elem()
		if x.Key == typeKey(x.Elem) {
			unsup("pointer retype %s", t)
		}
		return &PtrV{Ref: x.Ref, Key: x.Key, Idx: x.Idx, Elem: el}
	case *SliceV:
		return &SliceV{x.Ref, x.Off, x.Len, x.Cap, t.Underlying().(*types.Slice).Elem()}
	case *ChanV:
		return &ChanV{x.Ref, t.Underlying().(*types.Chan).Elem()}
	case *MapV:
		return &MapV{x.Ref, t.Underlying().(*types.Map)}
	}
	return v
}

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &FuncV{Builtin: x}
	case *ssa.Global:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		return &PtrV{Ref: e.ts.Const("global$"+x.String(), SInt), Key: "G:" + x.String(), Elem: el}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (e *Engine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if types.IsInterface(t) {
		unsup("interface constant")
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.ts.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return e.ts.StrC(constant.StringVal(c.Value))
	case constant.Int:
		switch basicSort(t.Underlying().(*types.Basic)) {
		case SF64:
			f, _ := constant.Float64Val(c.Value)
			return e.ts.F64C(f)
		case SF32:
			f, _ := constant.Float64Val(c.Value)
			return e.ts.mk("fop", "f64to32", SF32, e.ts.F64C(f))
		}
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("int constant %s", c)
		}
		return e.ts.IntB(b)
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if basicSort(t.Underlying().(*types.Basic)) == SF32 {
			return e.ts.mk("fop", "f64to32", SF32, e.ts.F64C(f))
		}
		if basicSort(t.Underlying().(*types.Basic)) == SInt {
			b, _ := new(big.Float).SetFloat64(f).Int(nil)
			return e.ts.IntB(b)
		}
		return e.ts.F64C(f)
	}
	unsup("constant %s", c)
	return nil
}

// machine arithmetic result
func (e *Engine) wrapTo(st *State, raw *Term, t types.Type) *Term {
	bits, signed, ok := intInfo(t)
	if !ok {
		unsup("wrap on %s", t)
	}
	lo, hi := intRange(bits, signed)
	raw = e.ts.absorb(raw, bits)
	l, h := e.rangeOf(st, raw)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return raw
	}
	ts := e.ts
	if raw.Op != "int" && !(raw.Op == "uf" && raw.Name == "imul") {
		in := ts.And(ts.Le(ts.IntB(lo), raw), ts.Le(raw, ts.IntB(hi)))
		if e.proves(st, in, true) == Unsat {
			st.bounds[raw] = [2]*big.Int{lo, hi}
			return raw
		}
	}
	return ts.Wrap(raw, bits, signed)
}

func (e *Engine) binop(st *State, fr *Frame, in *ssa.BinOp, next func(*State, *Frame)) bool {
	ts := e.ts
	xv, yv := e.val(st, fr, in.X), e.val(st, fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		r := e.equal(st, xv, yv, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			r = ts.Not(r)
		}
		fr.env[in] = r
		return false
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T,%T", in.Op, xv, yv)
	}
	switch x.Sort {
	case SBool:
		switch in.Op {
		case token.AND:
			fr.env[in] = ts.And(x, y)
		case token.OR:
			fr.env[in] = ts.Or(x, y)
		default:
			unsup("bool op %s", in.Op)
		}
		return false
	case SStr:
		switch in.Op {
		case token.ADD:
			fr.env[in] = ts.Concat(x, y)
		case token.LSS:
			fr.env[in] = e.strLess(x, y)
		case token.GTR:
			fr.env[in] = e.strLess(y, x)
		case token.LEQ:
			fr.env[in] = ts.Not(e.strLess(y, x))
		case token.GEQ:
			fr.env[in] = ts.Not(e.strLess(x, y))
		default:
			unsup("string op %s", in.Op)
		}
		return false
	case SF64, SF32:
		op := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}[in.Op]
		if op != "" {
			fr.env[in] = ts.FOp(op, x, y)
			return false
		}
		op = map[token.Token]string{token.LSS: "fp.lt", token.GTR: "fp.gt", token.LEQ: "fp.leq", token.GEQ: "fp.geq"}[in.Op]
		if op == "" {
			unsup("float op %s", in.Op)
		}
		fr.env[in] = ts.FCmp(op, x, y)
		return false
	}
	t := in.X.Type()
	switch in.Op {
	case token.LSS:
		fr.env[in] = ts.Lt(x, y)
	case token.GTR:
		fr.env[in] = ts.Gt(x, y)
	case token.LEQ:
		fr.env[in] = ts.Le(x, y)
	case token.GEQ:
		fr.env[in] = ts.Ge(x, y)
	case token.ADD:
		fr.env[in] = e.wrapTo(st, ts.Add(x, y), t)
	case token.SUB:
		fr.env[in] = e.wrapTo(st, ts.Sub(x, y), t)
	case token.MUL:
		fr.env[in] = e.wrapTo(st, ts.Mul(x, y), t)
	case token.QUO, token.REM:
		e.guard(st, fr, ts.Eq(y, ts.IntC(0)), "integer divide by zero", in.Pos(), func(st *State) {
			if x.Op == "int" && y.Op == "int" {
				q, r := new(big.Int).QuoRem(x.Int, y.Int, new(big.Int))
				if in.Op == token.QUO {
					fr.env[in] = e.wrapTo(st, ts.IntB(q), t)
				} else {
					fr.env[in] = ts.IntB(r)
				}
			} else {
				n := "tdiv"
				if in.Op == token.REM {
					n = "tmod"
				}
				var r *Term
				if y.Op == "int" {
					r = ts.mk(n, "", SInt, x, y)
				} else {
					r = ts.UF("idiv", SInt, x, y)
					if n == "tmod" {
						r = ts.Sub(x, ts.Mul(r, y))
					}
				}
				fr.env[in] = e.wrapTo(st, r, t)
			}
			next(st, fr)
		})
		return true
	default:
		// bit operations
		bits, signed, _ := intInfo(t)
		if x.Op == "int" && y.Op == "int" {
			r := new(big.Int)
			switch in.Op {
			case token.AND:
				r.And(x.Int, y.Int)
			case token.OR:
				r.Or(x.Int, y.Int)
			case token.XOR:
				r.Xor(x.Int, y.Int)
			case token.SHL:
				r.Lsh(x.Int, uint(y.Int.Int64()))
			case token.SHR:
				r.Rsh(x.Int, uint(y.Int.Int64()))
			case token.AND_NOT:
				r.AndNot(x.Int, y.Int)
			}
			fr.env[in] = ts.IntB(wrapBig(r, bits, signed))
			return false
		}
		if in.Op == token.SHL && y.Op == "int" && y.Int.IsInt64() && y.Int.Int64() < 64 {
			m := new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64()))
			fr.env[in] = e.wrapTo(st, ts.Mul(ts.IntB(m), x), t)
			return false
		}
		if in.Op == token.OR {
			// disjoint-bit or of a multiple of 2^k and a small value
			if r := e.disjointOr(st, x, y); r != nil {
				fr.env[in] = r
				return false
			}
		}
		r := ts.UF("bit"+sanitize(map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[in.Op])+fmt.Sprint(bits), SInt, x, y)
		e.typing(st, r, t)
		fr.env[in] = r
	}
	return false
}

func (e *Engine) disjointOr(st *State, x, y *Term) *Term {
	try := func(hi, lo *Term) *Term {
		l, h := e.rangeOf(st, lo)
		if h == nil || h.BitLen() > 16 {
			return nil
		}
		if (l == nil || l.Sign() < 0) && e.proves(st, e.ts.Le(e.ts.IntC(0), lo), false) != Unsat {
			return nil
		}
		k := uint(h.BitLen())
		arg := hi
		if hi.Op == "wrap" {
			// the wrapped multiple is a multiple if the modulus is
			if b, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(hi.Name, "u"), "wrap")); uint(b) > k {
				arg = hi.Args[0]
			}
		}
		lin := e.ts.lin(arg)
		m := new(big.Int).Lsh(big.NewInt(1), k)
		if new(big.Int).Mod(lin.c, m).Sign() != 0 {
			return nil
		}
		for _, c := range lin.ms {
			if new(big.Int).Mod(c, m).Sign() != 0 {
				return nil
			}
		}
		return e.ts.Add(hi, lo)
	}
	if r := try(x, y); r != nil {
		return r
	}
	return try(y, x)
}

func (e *Engine) strLess(a, b *Term) *Term {
	if a == b {
		return e.ts.False
	}
	if a.Op == "str" && b.Op == "str" {
		return e.ts.Bool(a.Name < b.Name)
	}
	return e.ts.UF("strlt", SBool, a, b)
}

func (e *Engine) equal(st *State, x, y Value, tx, ty types.Type) *Term {
	ts := e.ts
	if types.IsInterface(tx) != types.IsInterface(ty) {
		if types.IsInterface(tx) {
			y = e.box(y, ty)
			ty = tx
		} else {
			x = e.box(x, tx)
			tx = ty
		}
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.Sort == SF64 || a.Sort == SF32 {
			return ts.FCmp("fp.eq", a, b)
		}
		if a.Sort == SAny {
			// boxed floats compare as floats
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[0].Op == "cons" && len(p[0].Args) == 1 && p[0].Args[0].Sort == SF64 {
					return ts.And(ts.Is(p[0].Name, p[1]), ts.FCmp("fp.eq", p[0].Args[0], ts.Sel(p[0].Name, 0, p[1])))
				}
			}
		}
		return ts.Eq(a, b)
	case *StructV:
		b := y.(*StructV)
		s := a.T.Underlying().(*types.Struct)
		var cs []*Term
		for i := range a.Fields {
			cs = append(cs, e.equal(st, a.Fields[i], b.Fields[i], s.Field(i).Type(), s.Field(i).Type()))
		}
		return ts.And(cs...)
	case *PtrV:
		b := y.(*PtrV)
		return ts.Eq(e.encPtr(a), e.encPtr(b))
	case *SliceV:
		b := y.(*SliceV)
		if b.Ref.Op == "int" && b.Ref.Int.Sign() == 0 {
			return ts.Eq(a.Ref, b.Ref)
		}
		return ts.Eq(a.Ref, b.Ref)
	case *MapV:
		return ts.Eq(a.Ref, y.(*MapV).Ref)
	case *ChanV:
		return ts.Eq(a.Ref, y.(*ChanV).Ref)
	case *FuncV:
		return ts.Eq(e.funcID(a), e.funcID(y.(*FuncV)))
	}
	unsup("equality on %T", x)
	return nil
}

func (e *Engine) unop(st *State, fr *Frame, in *ssa.UnOp, next func(*State, *Frame)) bool {
	ts := e.ts
	x := e.val(st, fr, in.X)
	switch in.Op {
	case token.MUL: // load
		p := x.(*PtrV)
		if ia, ok := in.X.(*ssa.IndexAddr); ok {
			if tab := e.table(ia.X); tab != nil {
				r := e.tableAt(tab, p.Idx)
				if r.Op != "int" {
					lo, hi := tab.vals[0], tab.vals[0]
					for _, v := range tab.vals {
						if v.Cmp(lo) < 0 {
							lo = v
						}
						if v.Cmp(hi) > 0 {
							hi = v
						}
					}
					if _, ok := st.bounds[r]; !ok {
						st.bounds[r] = [2]*big.Int{lo, hi}
					}
				}
				fr.env[in] = r
				return false
			}
		}
		e.guard(st, fr, e.isNilRef(st, p.Ref), "nil dereference", in.Pos(), func(st *State) {
			e.guarded(st, fr, in.X, in.Pos())
			if strings.HasPrefix(p.Key, "G:") {
				if v := e.globalConst(st, p); v != nil {
					fr.env[in] = v
					next(st, fr)
					return
				}
			}
			fr.env[in] = e.load(st, p)
			next(st, fr)
		})
		return true
	case token.NOT:
		fr.env[in] = ts.Not(x.(*Term))
		return false
	case token.SUB:
		t := x.(*Term)
		if t.Sort == SF64 || t.Sort == SF32 {
			fr.env[in] = ts.FOp("fp.neg", t)
			return false
		}
		fr.env[in] = e.wrapTo(st, ts.Neg(t), in.Type())
		return false
	case token.XOR:
		t := x.(*Term)
		bits, signed, _ := intInfo(in.Type())
		r := ts.Sub(ts.IntC(-1), t)
		if !signed {
			r = ts.Wrap(r, bits, signed)
		}
		fr.env[in] = r
		return false
	case token.ARROW:
		e.recv(st, fr, x.(*ChanV), func(st *State, v Value, ok *Term) {
			f2 := fr.clone()
			if in.CommaOk {
				f2.env[in] = TupleV{v, ok}
			} else {
				f2.env[in] = v
			}
			next(st, f2)
		})
		return true
	}
	unsup("unop %s", in.Op)
	return true
}

func (e *Engine) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, next func(*State, *Frame)) bool {
	x := e.val(st, fr, in.X).(*Term)
	T := in.AssertedType
	var cond *Term
	isI := types.IsInterface(T)
	if isI {
		cond = e.implTerm(st, x, T, in.X.Type())
	} else {
		cond = e.ts.Is(e.tr.ctor(T).Name, x)
	}
	fr2 := fr.clone()
	e.branch(st, cond, "", func(st *State) {
		var v Value = x
		if !isI {
			v = e.unbox(st, x, T)
		}
		if in.CommaOk {
			fr.env[in] = TupleV{v, e.ts.True}
		} else {
			fr.env[in] = v
		}
		next(st, fr)
	}, func(st *State) {
		if in.CommaOk {
			fr2.env[in] = TupleV{e.zero(T), e.ts.False}
			next(st, fr2)
			return
		}
		e.raise(st, fr2, &panicRec{what: "type assertion at " + e.posOf(in.Pos()), val: e.ts.UF("rtpanic$typeassert", SAny)})
	})
	return true
}

func (e *Engine) implTerm(st *State, x *Term, T types.Type, static types.Type) *Term {
	it := T.Underlying().(*types.Interface)
	if it.NumMethods() == 0 || static != nil && types.Implements(static, it) {
		return e.ts.Not(e.ts.Is("anil", x))
	}
	if x.Op == "cons" {
		if x.Name == "anil" {
			return e.ts.False
		}
		if c := e.tr.byName(x.Name); c != nil {
			return e.ts.Bool(types.Implements(c.Type, it))
		}
	}
	key := typeKey(T)
	e.ifaces[key] = it
	return e.ts.UF("impl$"+key, SBool, x)
}

func (e *Engine) convert(st *State, fr *Frame, v Value, from, to types.Type) Value {
	ts := e.ts
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if fb != nil && tb != nil {
		x := v.(*Term)
		fs, tsrt := basicSort(fb), basicSort(tb)
		switch {
		case fs == SInt && tsrt == SInt:
			return e.wrapTo(st, x, to)
		case fs == SInt && tsrt == SF64:
			return ts.I2F(x, SF64)
		case fs == SInt && tsrt == SF32:
			return ts.I2F(x, SF32)
		case fs == SF64 && tsrt == SInt, fs == SF32 && tsrt == SInt:
			bits, signed, _ := intInfo(to)
			r := ts.UF(fmt.Sprintf("f2i%s%d%v", fs, bits, signed), SInt, x)
			e.typing(st, r, to)
			return r
		case fs == SF64 && tsrt == SF32:
			return ts.mk("fop", "f64to32", SF32, x)
		case fs == SF32 && tsrt == SF64:
			return ts.mk("fop", "f32to64", SF64, x)
		case fs == tsrt:
			return x
		case fs == SInt && tsrt == SStr:
			if x.Op == "int" {
				return ts.StrC(string(rune(x.Int.Int64())))
			}
			return ts.UF("rune2str", SStr, x)
		}
	}
	if fs, ok := fu.(*types.Slice); ok && tb != nil && tb.Info()&types.IsString != 0 {
		s := v.(*SliceV)
		_ = fs
		if eb, ok := s.Elem.Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			arr := e.sel(st, e.heapGet(st, "e:"+typeKey(s.Elem), ArrSort(ArrSort(SInt))), s.Ref)
			return e.bytesToStr(st, arr, s.Off, s.Len)
		}
		args := e.contentArgs(st, s, from)
		return ts.UF("runes2str/"+sigStr(args), SStr, args...)
	}
	if tsl, ok := tu.(*types.Slice); ok && fb != nil {
		x := v.(*Term)
		if eb, ok := tsl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			ref := e.newRef(st)
			k := "e:" + typeKey(tsl.Elem())
			arr := ts.UF("bytesOf", ArrSort(SInt), x)
			st.heap[k] = ts.Store(e.heapGet(st, k, ArrSort(ArrSort(SInt))), ref, arr)
			return &SliceV{ref, ts.IntC(0), ts.StrLen(x), ts.StrLen(x), tsl.Elem()}
		}
		// []rune
		ref := e.newRef(st)
		k := "e:" + typeKey(tsl.Elem())
		arr := ts.UF("runesOf", ArrSort(SInt), x)
		n := ts.UF("runeCount", SInt, x)
		e.assumeFact(st, ts.And(ts.Le(ts.IntC(0), n), ts.Le(n, ts.StrLen(x)),
			ts.Implies(ts.Lt(ts.IntC(0), ts.StrLen(x)), ts.Lt(ts.IntC(0), n))))
		st.typed[n] = true
		st.bounds[n] = [2]*big.Int{zeroBig, maxLen}
		st.heap[k] = ts.Store(e.heapGet(st, k, ArrSort(ArrSort(SInt))), ref, arr)
		return &SliceV{ref, ts.IntC(0), n, n, tsl.Elem()}
	}
	return e.retype(v, to)
}

func (e *Engine) bytesToStr(st *State, arr, off, n *Term) *Term {
	ts := e.ts
	if arr.Op == "uf" && arr.Name == "bytesOf" && off.Op == "int" && off.Int.Sign() == 0 && n == ts.StrLen(arr.Args[0]) {
		return arr.Args[0]
	}
	if n.Op == "int" && n.Int.Sign() == 0 {
		return ts.StrC("")
	}
	return ts.mk("bytes2str", "", SStr, arr, off, n)
}

func (e *Engine) sliceOp(st *State, fr *Frame, in *ssa.Slice, next func(*State, *Frame)) bool {
	ts := e.ts
	x := e.val(st, fr, in.X)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return e.val(st, fr, v).(*Term)
	}
	z := ts.IntC(0)
	switch v := x.(type) {
	case *Term: // string
		lo, hi := get(in.Low, z), get(in.High, ts.StrLen(v))
		bad := ts.Not(ts.And(ts.Le(z, lo), ts.Le(lo, hi), ts.Le(hi, ts.StrLen(v))))
		e.guard(st, fr, bad, "slice bounds out of range", in.Pos(), func(st *State) {
			fr.env[in] = ts.Substr(v, lo, hi)
			next(st, fr)
		})
		return true
	case *SliceV:
		lo, hi := get(in.Low, z), get(in.High, v.Len)
		mx := get(in.Max, v.Cap)
		bad := ts.Not(ts.And(ts.Le(z, lo), ts.Le(lo, hi), ts.Le(hi, mx), ts.Le(mx, v.Cap)))
		e.guard(st, fr, bad, "slice bounds out of range", in.Pos(), func(st *State) {
			fr.env[in] = &SliceV{v.Ref, ts.Add(v.Off, lo), ts.Sub(hi, lo), ts.Sub(mx, lo), v.Elem}
			next(st, fr)
		})
		return true
	case *PtrV:
		at := v.Elem.Underlying().(*types.Array)
		n := ts.IntC(at.Len())
		lo, hi := get(in.Low, z), get(in.High, n)
		bad := ts.Not(ts.And(ts.Le(z, lo), ts.Le(lo, hi), ts.Le(hi, n)))
		e.guard(st, fr, bad, "slice bounds out of range", in.Pos(), func(st *State) {
			fr.env[in] = &SliceV{e.arrayRef(st, v), lo, ts.Sub(hi, lo), ts.Sub(n, lo), at.Elem()}
			next(st, fr)
		})
		return true
	}
	unsup("slice of %T", x)
	return true
}

// ---- maps ----

func keySort(e *Engine, t types.Type) Sort {
	ls := e.tr.leaves(t)
	if len(ls) != 1 {
		unsup("map key %s", t)
	}
	return ls[0].Sort
}

func (e *Engine) mapKeys(m *MapV) (dom string, ks Sort) {
	return "m:" + typeKey(m.T) + "#dom", keySort(e, m.T.Key())
}

func (e *Engine) mapInit(st *State, m *MapV) {
	dom, ks := e.mapKeys(m)
	s := ArrSort(KArrSort(ks, SBool))
	st.heap[dom] = e.ts.Store(e.heapGet(st, dom, s), m.Ref, e.ts.ConstArr(KArrSort(ks, SBool), e.ts.False))
	ln := "m:" + typeKey(m.T) + "#len"
	st.heap[ln] = e.ts.Store(e.heapGet(st, ln, ArrSort(SInt)), m.Ref, e.ts.IntC(0))
}

func (e *Engine) mapDom(st *State, m *MapV) *Term {
	dom, ks := e.mapKeys(m)
	return e.sel(st, e.heapGet(st, dom, ArrSort(KArrSort(ks, SBool))), m.Ref)
}

func (e *Engine) mapGet(st *State, m *MapV, key Value) (Value, *Term) {
	ts := e.ts
	_, ks := e.mapKeys(m)
	k := e.encode(key, m.T.Key())[0]
	isnil := e.simp(st, e.isNilRef(st, m.Ref))
	in := e.sel(st, e.mapDom(st, m), k)
	in = e.simp(st, ts.And(ts.Not(isnil), in))
	var ls []*Term
	for _, l := range e.tr.leaves(m.T.Elem()) {
		hk := "m:" + typeKey(m.T) + "#val" + l.Path
		h := e.heapGet(st, hk, ArrSort(KArrSort(ks, l.Sort)))
		v := e.sel(st, e.sel(st, h, m.Ref), k)
		ls = append(ls, ts.Ite(in, v, e.zeroLeaf(l.Sort)))
	}
	v := e.decode(ls, m.T.Elem())
	e.typing(st, v, m.T.Elem())
	return v, in
}

func (e *Engine) mapLen(st *State, m *MapV) *Term {
	ts := e.ts
	t := e.sel(st, e.heapGet(st, "m:"+typeKey(m.T)+"#len", ArrSort(SInt)), m.Ref)
	if t.Op != "int" && !st.typed[t] {
		st.typed[t] = true
		e.assumeFact(st, ts.And(ts.Le(ts.IntC(0), t), ts.Le(t, ts.IntB(maxLen))))
	}
	return ts.Ite(e.isNilRef(st, m.Ref), ts.IntC(0), t)
}

func (e *Engine) mapSet(st *State, m *MapV, key, v Value) {
	ts := e.ts
	dom, ks := e.mapKeys(m)
	k := e.encode(key, m.T.Key())[0]
	d := e.mapDom(st, m)
	was := e.simp(st, e.sel(st, d, k))
	ln := "m:" + typeKey(m.T) + "#len"
	lh := e.heapGet(st, ln, ArrSort(SInt))
	old := e.sel(st, lh, m.Ref)
	st.heap[ln] = ts.Store(lh, m.Ref, ts.Ite(was, old, ts.Add(old, ts.IntC(1))))
	st.heap[dom] = ts.Store(e.heapGet(st, dom, ArrSort(KArrSort(ks, SBool))), m.Ref, ts.Store(d, k, ts.True))
	enc := e.encode(v, m.T.Elem())
	for i, l := range e.tr.leaves(m.T.Elem()) {
		hk := "m:" + typeKey(m.T) + "#val" + l.Path
		h := e.heapGet(st, hk, ArrSort(KArrSort(ks, l.Sort)))
		st.heap[hk] = ts.Store(h, m.Ref, ts.Store(e.sel(st, h, m.Ref), k, enc[i]))
	}
}

func (e *Engine) mapDelete(st *State, m *MapV, key Value) {
	ts := e.ts
	dom, ks := e.mapKeys(m)
	k := e.encode(key, m.T.Key())[0]
	d := e.mapDom(st, m)
	was := e.simp(st, e.sel(st, d, k))
	ln := "m:" + typeKey(m.T) + "#len"
	lh := e.heapGet(st, ln, ArrSort(SInt))
	old := e.sel(st, lh, m.Ref)
	st.heap[ln] = ts.Store(lh, m.Ref, ts.Ite(was, ts.Sub(old, ts.IntC(1)), old))
	st.heap[dom] = ts.Store(e.heapGet(st, dom, ArrSort(KArrSort(ks, SBool))), m.Ref, ts.Store(d, k, ts.False))
}

// ---- ghost state and channels ----

func (e *Engine) ghostGet(st *State, key string, s Sort, r *Term) *Term {
	return e.sel(st, e.heapGet(st, "g:"+key, ArrSort(s)), r)
}
func (e *Engine) ghostSet(st *State, key string, s Sort, r, v *Term) {
	h := e.heapGet(st, "g:"+key, ArrSort(s))
	st.heap["g:"+key] = e.ts.Store(h, r, v)
}
func (e *Engine) ghost(st *State, key string, s Sort, init *Term) *Term {
	if t, ok := st.heap["v:"+key]; ok {
		return t
	}
	if init == nil {
		init = e.ts.Const("H0$v:"+key, s)
	}
	st.heap["v:"+key] = init
	return init
}

func (e *Engine) chanKey(c *ChanV, l Leaf) string { return "chan.a$" + typeKey(c.Elem) + l.Path }

func (e *Engine) send(st *State, fr *Frame, c *ChanV, v Value, t types.Type, pos token.Pos, k func(*State)) {
	e.chanT[c.Ref] = c.Elem
	closed := e.ghostGet(st, "chan.closed", SBool, c.Ref)
	e.guard(st, fr, closed, "send on closed channel", pos, func(st *State) {
		n := e.chanLen(st, c)
		enc := e.encode(v, c.Elem)
		for i, l := range e.tr.leaves(c.Elem) {
			key := e.chanKey(c, l)
			a := e.ghostGet(st, key, ArrSort(l.Sort), c.Ref)
			e.ghostSet(st, key, ArrSort(l.Sort), c.Ref, e.ts.Store(a, n, enc[i]))
		}
		e.ghostSet(st, "chan.n", SInt, c.Ref, e.ts.Add(n, e.ts.IntC(1)))
		k(st)
	})
}

func (e *Engine) chanLen(st *State, c *ChanV) *Term {
	n := e.ghostGet(st, "chan.n", SInt, c.Ref)
	if n.Op != "int" && !st.typed[n] {
		st.typed[n] = true
		e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), n), e.ts.Le(n, e.ts.IntB(maxLen))))
	}
	return n
}

func (e *Engine) chanElem(st *State, c *ChanV, i *Term) Value {
	var ls []*Term
	for _, l := range e.tr.leaves(c.Elem) {
		ls = append(ls, e.sel(st, e.ghostGet(st, e.chanKey(c, l), ArrSort(l.Sort), c.Ref), i))
	}
	v := e.decode(ls, c.Elem)
	e.typing(st, v, c.Elem)
	return v
}

func isDoneChan(c *ChanV) bool {
	return c.Ref.Op == "uf" && strings.Contains(c.Ref.Name, "Context.Done")
}

// recv: the i-th receive on a channel yields the i-th element sent until the
// (finite) sequence is exhausted. Goroutines run to completion at their go
// statement, so whatever will be sent has been sent.
func (e *Engine) recv(st *State, fr *Frame, c *ChanV, k func(*State, Value, *Term)) {
	ts := e.ts
	if isDoneChan(c) {
		e.setCancelled(st)
		k(st, e.zero(c.Elem), ts.False)
		return
	}
	e.chanT[c.Ref] = c.Elem
	pos := e.ghostGet(st, rposKey(c.Elem), SInt, c.Ref)
	if pos.Op != "int" && !st.typed[pos] {
		st.typed[pos] = true
		e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), pos), e.ts.Le(pos, e.ts.IntB(maxLen))))
	}
	n := e.chanLen(st, c)
	e.branch(st, ts.Lt(pos, n), "", func(st *State) {
		v := e.chanElem(st, c, pos)
		e.ghostSet(st, rposKey(c.Elem), SInt, c.Ref, ts.Add(pos, ts.IntC(1)))
		k(st, v, ts.True)
	}, func(st *State) {
		if c.Ref.Op == "int" {
			closed := e.ghostGet(st, "chan.closed", SBool, c.Ref)
			if closed.Op == "false" {
				e.run.assumption("paths on which a receive blocks forever under the sequential goroutine order are not explored")
				return
			}
		}
		k(st, e.zero(c.Elem), ts.False)
	})
}

func (e *Engine) setCancelled(st *State) {
	st.heap["v:cancelled"] = e.ts.True
}

func (e *Engine) selectStmt(st *State, fr *Frame, in *ssa.Select, next func(*State, *Frame)) {
	ts := e.ts
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(st *State, fr *Frame, idx int, ok *Term, recvd map[int]Value) {
		t := TupleV{ts.IntC(int64(idx)), ok}
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if v, has := recvd[i]; has {
					t = append(t, v)
				} else {
					t = append(t, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.env[in] = t
		next(st, fr)
	}
	for i, s := range in.States {
		st2, fr2 := st.clone(), fr.clone()
		c := e.val(st2, fr2, s.Chan).(*ChanV)
		isnil := e.simp(st2, e.isNilRef(st2, c.Ref))
		if isnil.Op == "true" {
			continue
		}
		st2.path = append(st2.path, fmt.Sprintf("select case %d", i))
		if s.Dir == types.SendOnly {
			e.send(st2, fr2, c, e.val(st2, fr2, s.Send), s.Send.Type(), s.Pos, func(st *State) {
				mk(st, fr2, i, ts.False, nil)
			})
			continue
		}
		e.recv(st2, fr2, c, func(st *State, v Value, ok *Term) {
			mk(st, fr2.clone(), i, ok, map[int]Value{i: v})
		})
	}
	if !in.Blocking {
		st2, fr2 := st.clone(), fr.clone()
		mk(st2, fr2, -1, ts.False, nil)
	}
}

func (e *Engine) next(st *State, fr *Frame, in *ssa.Next, next func(*State, *Frame)) bool {
	ts := e.ts
	it := e.val(st, fr, in.Iter).(*IterV)
	pos := e.ghostGet(st, "iterpos", SInt, it.Pos)
	if it.Kind == "str" {
		s := it.X.(*Term)
		if s.Op == "str" && pos.Op == "int" {
			p := int(pos.Int.Int64())
			if p >= len(s.Name) {
				fr.env[in] = TupleV{ts.False, ts.IntC(0), ts.IntC(0)}
				return false
			}
			for i, r := range s.Name[p:] {
				if i == 0 {
					w := len(string(r))
					rest := []rune(s.Name[p:])
					if rest[0] == 0xFFFD {
						w = len(s.Name[p:]) - len(string(rest[1:]))
						if w < 1 {
							w = 1
						}
					}
					e.ghostSet(st, "iterpos", SInt, it.Pos, ts.IntC(int64(p+w)))
					fr.env[in] = TupleV{ts.True, ts.IntC(int64(p)), ts.IntC(int64(r))}
					return false
				}
			}
		}
		if n := len(fr.loops); n > 0 && fr.loops[n-1].header == in.Block() && fr.loops[n-1].unroll {
			// a text of unknown length: use the invariant rule
			fr.loops[n-1].cut()
			return true
		}
		fr2 := fr.clone()
		e.branch(st, ts.Lt(pos, ts.StrLen(s)), "", func(st *State) {
			r := ts.UF("runeAt", SInt, s, pos)
			w := ts.UF("runeWidth", SInt, s, pos)
			b0 := ts.StrAt(s, pos)
			e.assume(st, ts.And(ts.Le(ts.IntC(1), w), ts.Le(w, ts.IntC(4)), ts.Le(ts.Add(pos, w), ts.StrLen(s)),
				ts.Le(ts.IntC(0), r), ts.Le(r, ts.IntC(0x10FFFF)),
				// ASCII bytes decode to themselves with width 1; others do not
				ts.Implies(ts.Lt(b0, ts.IntC(128)), ts.And(ts.Eq(r, b0), ts.Eq(w, ts.IntC(1)))),
				ts.Implies(ts.Le(ts.IntC(128), b0), ts.Le(ts.IntC(128), r))))
			st.bounds[r] = [2]*big.Int{zeroBig, big.NewInt(0x10FFFF)}
			e.ghostSet(st, "iterpos", SInt, it.Pos, ts.Add(pos, w))
			fr.env[in] = TupleV{ts.True, pos, r}
			next(st, fr)
		}, func(st *State) {
			fr2.env[in] = TupleV{ts.False, ts.IntC(0), ts.IntC(0)}
			next(st, fr2)
		})
		return true
	}
	// map: arbitrary order; every member of the domain once. A map changed
	// during the iteration yields some member or ends at any time.
	m := it.M
	n := e.mapLen(st, m)
	fr2 := fr.clone()
	more := ts.Lt(pos, n)
	d := e.mapDom(st, m)
	changed := d != it.Dom
	if changed {
		more = ts.Fresh("more", SBool)
	}
	e.branch(st, more, "", func(st *State) {
		_, ks := e.mapKeys(m)
		var k *Term
		if changed {
			k = ts.Fresh("mapkey", ks)
			e.assume(st, ts.Not(e.isNilRef(st, m.Ref)))
		} else {
			k = e.keyAt(it, ks, pos)
			e.assume(st, ts.Eq(e.keyIdx(it, k), pos))
		}
		e.assume(st, e.sel(st, d, k))
		e.ghostSet(st, "iterpos", SInt, it.Pos, ts.Add(pos, ts.IntC(1)))
		kv := e.decode([]*Term{k}, m.T.Key())
		v, _ := e.mapGet(st, m, kv)
		fr.env[in] = TupleV{ts.True, kv, v}
		next(st, fr)
	}, func(st *State) {
		fr2.env[in] = TupleV{ts.False, e.zero(m.T.Key()), e.zero(m.T.Elem())}
		next(st, fr2)
	})
	return true
}

// rposKey: the ghost counter of values received from a channel. Timer
// channels have their own, so that they are never confused with row channels.
func rposKey(elem types.Type) string {
	if typeKey(elem) == "time.Time" {
		return "chan.rpos.time"
	}
	return "chan.rpos"
}
