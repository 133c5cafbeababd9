package main

// Calls: builtins, contract intrinsics, models of external functions,
// inlining of in-module code, opaque interface calls.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callTarget(st *State, fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(st, fr, a))
	}
	return e.val(st, fr, c.Value), args
}

func (e *Engine) doCall(st *State, fr *Frame, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos, deferred bool, k func(*State, Outcome)) {
	if st.dead {
		return
	}
	e.tick()
	if c.IsInvoke() {
		e.invoke(st, fr, c, fn.(*Term), args, pos, deferred, k)
		return
	}
	f := fn.(*FuncV)
	if f.Builtin != nil {
		e.builtin(st, fr, c, f.Builtin.Name(), args, pos, deferred, k)
		return
	}
	if f.Fn == nil {
		if e.run.cancels[f.Sym] {
			ret(k, st, nil)
			return
		}
		// unknown function value
		e.branch(st, e.isNilRef(st, f.Sym), "", func(st *State) {
			k(st, Outcome{Panic: &panicRec{what: "call of nil function at " + e.posOf(pos), val: e.ts.UF("rtpanic$nilfunc", SAny)}})
		}, func(st *State) {
			e.opaqueCall(st, "callfn$"+sanitize(typeKey(c.Signature())), append([]Value{f.Sym}, args...), append([]types.Type{types.Typ[types.Int]}, paramTypes(c.Signature())...), c.Signature().Results(), true, k)
		})
		return
	}
	e.callStatic(st, fr, f, args, pos, deferred, k)
}

func paramTypes(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Type())
	}
	return out
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modulePath+"/", "")
	s = strings.ReplaceAll(s, modulePath, "vfilter")
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		s = pre + s[i+1:]
	}
	return s
}

// methodKey "pkg.Type.Method" or "pkg.Func" as used in contract directives.
func methodKey(fn *ssa.Function) string {
	s := shortFn(fn)
	if o := fn.Origin(); o != nil && o != fn {
		// without the type arguments
		s = shortFn(o)
		if i := strings.IndexByte(s, '['); i >= 0 {
			if j := strings.IndexByte(s[i:], ']'); j >= 0 {
				s = s[:i] + s[i+j+1:]
			}
		}
	}
	s = strings.NewReplacer("(*", "", "(", "", ")", "").Replace(s)
	return s
}

func onStack(fr *Frame, fn *ssa.Function) bool {
	for ; fr != nil; fr = fr.parent {
		if fr.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) listed(list []string, key string) bool {
	for _, l := range list {
		if l == key {
			return true
		}
		if strings.HasSuffix(l, ".*") && strings.HasPrefix(key, l[:len(l)-1]) {
			return true
		}
	}
	return false
}

func (e *Engine) callStatic(st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, deferred bool, k func(*State, Outcome)) {
	fn := f.Fn
	key := methodKey(fn)
	gen := fn
	if o := fn.Origin(); o != nil {
		gen = o
	}
	if strings.HasPrefix(gen.Name(), "v") && fn.Signature.Recv() == nil && gen.Pkg != nil {
		if m, ok := intrinsics[gen.Name()]; ok && strings.HasPrefix(gen.Pkg.Pkg.Path(), modulePath) &&
			strings.HasSuffix(e.ld.Fset.Position(fn.Pos()).Filename, "zz_verif_prelude.go") {
			m(e, st, fr, f, args, pos, k)
			return
		}
	}
	c := e.run.C
	if c != nil {
		if m := c.Assume[key]; m != "" {
			mf := c.Fn.Pkg.Func(m)
			if mf == nil {
				unsup("assumed contract %s not found", m)
			}
			e.run.assumption("in " + c.Name + ": " + key + " behaves as the assumed contract " + m)
			e.callFn(st, mf, args, nil, fr, false, k)
			return
		}
		if e.listed(c.Traced, key) || e.listed(c.Nested, key) && onStack(fr, fn) {
			var tys []types.Type
			for _, p := range fn.Params {
				tys = append(tys, p.Type())
			}
			e.run.assumption("in " + c.Name + ": " + key + " is used through an uninterpreted contract (deterministic in its arguments, no effect on the objects reasoned about); its calls are recorded in a ghost trace")
			e.tracedCall(st, key, args, tys, fn.Signature.Results(), k)
			return
		}
		if e.listed(c.Opaque, key) || e.listed(c.Effect, key) {
			var tys []types.Type
			for _, p := range fn.Params {
				tys = append(tys, p.Type())
			}
			e.run.assumption("in " + c.Name + ": " + key + " is used through an uninterpreted contract (deterministic in its arguments" + map[bool]string{true: " and the event history", false: ", no effect on the objects reasoned about"}[e.listed(c.Effect, key)] + ")")
			e.opaqueCall(st, key, args, tys, fn.Signature.Results(), e.listed(c.Effect, key), k)
			return
		}
	}
	if m, ok := models[fn.String()]; ok {
		m(e, st, fr, f, args, pos, k)
		return
	}
	org := fn
	if fn.Origin() != nil {
		org = fn.Origin()
		if m, ok := models[org.String()]; ok {
			m(e, st, fr, f, args, pos, k)
			return
		}
	}
	if len(fn.Blocks) > 0 {
		e.callFn(st, fn, args, f.Bindings, fr, deferred, k)
		return
	}
	// external function
	e.external(st, fn, args, k)
}

func (e *Engine) external(st *State, fn *ssa.Function, args []Value, k func(*State, Outcome)) {
	e.run.Externals[fn.String()] = true
	var tys []types.Type
	for _, p := range fn.Params {
		tys = append(tys, p.Type())
	}
	sig := fn.Signature
	if len(tys) == 0 && len(args) > 0 {
		if sig.Recv() != nil {
			tys = append(tys, sig.Recv().Type())
		}
		tys = append(tys, paramTypes(sig)...)
	}
	var ts []*Term
	var bump *Term
	for i, a := range args {
		ts = append(ts, e.contentArgs(st, a, tys[i])...)
		if p, ok := a.(*PtrV); ok && i == 0 && sig.Recv() != nil {
			// stateful receiver: results depend on how often it was used
			r := e.encPtr(p)
			ver := e.ghostGet(st, "ver", SInt, r)
			ts = append(ts, ver)
			bump = r
			_ = ver
		}
	}
	r := e.ufCall(st, fn.String(), ts, sig.Results())
	if bump != nil {
		e.ghostSet(st, "ver", SInt, bump, e.ts.Add(e.ghostGet(st, "ver", SInt, bump), e.ts.IntC(1)))
	}
	k(st, Outcome{Ret: r})
}

// opaqueCall: result is an uninterpreted function of the arguments (and of
// the event history for calls with effects, which append an event).
func (e *Engine) opaqueCall(st *State, name string, args []Value, tys []types.Type, res *types.Tuple, effect bool, k func(*State, Outcome)) {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.contentArgs(st, a, tys[i])...)
	}
	if effect {
		ev := e.ts.UF("event$"+name+"/"+sigStr(ts), SAny, ts...)
		n := e.ghost(st, "trace.n", SInt, nil)
		a := e.ghost(st, "trace.a", ArrSort(SAny), nil)
		e.typing(st, n, types.Typ[types.Int])
		e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), n), e.ts.Le(n, e.ts.IntB(maxLen))))
		ts = append(ts, n)
		st.heap["v:trace.a"] = e.ts.Store(a, n, ev)
		st.heap["v:trace.n"] = e.ts.Add(n, e.ts.IntC(1))
	}
	r := e.ufCall(st, name, ts, res)
	e.called(st, name, args, res, r)
	k(st, Outcome{Ret: r})
}

// called notes a call through an uninterpreted contract. Channels it returns
// have not been read from.
func (e *Engine) called(st *State, name string, args []Value, res *types.Tuple, r Value) {
	l := cloneMap(st.last)
	l[name] = Outcome2{args, r, res}
	st.last = l
	passed := false
	for _, a := range args {
		switch a.(type) {
		case *ChanV, *FuncV:
			passed = true
		}
	}
	nonnil := e.run.C != nil && e.listed(e.run.C.NonNil, name)
	if nonnil {
		e.run.assumption("in " + e.run.C.Name + ": results of " + name + " are not nil")
	}
	unread := func(v Value) {
		if nonnil {
			switch x := v.(type) {
			case *Term:
				if x.Sort == SAny {
					e.assume(st, e.ts.Not(e.ts.Is("anil", x)))
				}
			case *PtrV:
				e.assume(st, e.ts.Not(e.isNilRef(st, x.Ref)))
			case *FuncV:
				if x.Sym != nil {
					e.assume(st, e.ts.Not(e.isNilRef(st, x.Sym)))
				}
			case *ChanV:
				e.assume(st, e.ts.Not(e.isNilRef(st, x.Ref)))
			case *MapV:
				e.assume(st, e.ts.Not(e.isNilRef(st, x.Ref)))
			}
		}
		c, ok := v.(*ChanV)
		if ok && !passed && !isDoneChan(c) {
			e.run.assumption("channels returned by calls through uninterpreted contracts are not channels made by the code under contract, unless passed to the call")
			e.assume(st, e.ts.Lt(c.Ref, e.refTerm(1)))
		}
		if !ok || isDoneChan(c) {
			return
		}
		h0 := e.ts.Const("H0$g:"+rposKey(c.Elem), ArrSort(SInt))
		if p := e.ghostGet(st, rposKey(c.Elem), SInt, c.Ref); p.Op == "select" && p.Args[0] == h0 && !st.typed[p] {
			st.typed[p] = true
			e.run.assumption("channels returned by calls through uninterpreted contracts have not been read before")
			e.assume(st, e.ts.Eq(p, e.ts.IntC(0)))
		}
	}
	if t, ok := r.(TupleV); ok {
		for _, v := range t {
			unread(v)
		}
	} else {
		unread(r)
	}
}

// tracedCall: deterministic result, and the call is appended to the trace.
func (e *Engine) tracedCall(st *State, name string, args []Value, tys []types.Type, res *types.Tuple, k func(*State, Outcome)) {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.contentArgs(st, a, tys[i])...)
	}
	ev := e.ts.UF("event$"+name+"/"+sigStr(ts), SAny, ts...)
	n := e.ghost(st, "trace.n", SInt, nil)
	a := e.ghost(st, "trace.a", ArrSort(SAny), nil)
	e.typing(st, n, types.Typ[types.Int])
	e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), n), e.ts.Le(n, e.ts.IntB(maxLen))))
	st.heap["v:trace.a"] = e.ts.Store(a, n, ev)
	st.heap["v:trace.n"] = e.ts.Add(n, e.ts.IntC(1))
	r := e.ufCall(st, name, ts, res)
	e.called(st, name, args, res, r)
	k(st, Outcome{Ret: r})
}

func (e *Engine) knownTag(st *State, x *Term) string {
	if x.Op == "cons" {
		return x.Name
	}
	if t, ok := st.tags[x]; ok {
		return t
	}
	return ""
}

func (e *Engine) invoke(st *State, fr *Frame, c *ssa.CallCommon, x *Term, args []Value, pos token.Pos, deferred bool, k func(*State, Outcome)) {
	// split merged values first
	if x.Op == "ite" {
		e.branch(st, x.Args[0], "", func(st *State) { e.invoke(st, fr, c, x.Args[1], args, pos, deferred, k) },
			func(st *State) { e.invoke(st, fr, c, x.Args[2], args, pos, deferred, k) })
		return
	}
	e.guardK(st, e.ts.Is("anil", x), "nil interface call", pos, k, func(st *State) {
		key := ifaceKey(c)
		rc := e.run.C
		if rc != nil && rc.Assume[key] != "" {
			mf := rc.Fn.Pkg.Func(rc.Assume[key])
			if mf == nil {
				unsup("assumed contract %s not found", rc.Assume[key])
			}
			e.run.assumption("in " + rc.Name + ": " + key + " behaves as the assumed contract " + rc.Assume[key])
			e.callFn(st, mf, append([]Value{x}, args...), nil, fr, false, k)
			return
		}
		effect := rc != nil && e.listed(rc.Effect, key)
		if rc != nil && e.listed(rc.Traced, key) {
			e.run.assumption("in " + rc.Name + ": " + key + " is used through an uninterpreted contract (deterministic in its arguments, no effect on the objects reasoned about); its calls are recorded in a ghost trace")
			e.tracedCall(st, key, append([]Value{x}, args...), append([]types.Type{types.NewInterfaceType(nil, nil)}, paramTypes(c.Signature())...), c.Signature().Results(), k)
			return
		}
		opq := rc != nil && e.listed(rc.Opaque, key)
		if tag := e.knownTag(st, x); tag != "" && tag != "aother" && !effect && !opq {
			ct := e.tr.byName(tag)
			if ct == nil {
				unsup("invoke %s on %s (tag %s)", key, x.str(4), tag)
			}
			var fn *ssa.Function
			if sel := e.ld.Prog.MethodSets.MethodSet(ct.Type).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				fn = e.ld.Prog.MethodValue(sel)
			}
			if fn == nil {
				unsup("no method %s on %s", c.Method.Name(), ct.Type)
			}
			recv := e.unbox(st, x, ct.Type)
			e.callStatic(st, fr, &FuncV{Fn: fn}, append([]Value{recv}, args...), pos, deferred, k)
			return
		}
		if m, ok := ifaceModels[key]; ok {
			m(e, st, fr, x, args, pos, k)
			return
		}
		e.run.assumption("interface calls on values of unknown dynamic type are deterministic in their arguments and leave the objects reasoned about unchanged: " + key)
		e.opaqueCall(st, key, append([]Value{x}, args...), append([]types.Type{types.NewInterfaceType(nil, nil)}, paramTypes(c.Signature())...), c.Signature().Results(), effect, k)
	})
}

func ifaceKey(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	n := "iface"
	if nt, ok := t.(*types.Named); ok {
		n = nt.Obj().Name()
		if nt.Obj().Pkg() != nil {
			n = nt.Obj().Pkg().Name() + "." + n
		}
	}
	// normalise embedded interfaces to where the method is declared
	return n + "." + c.Method.Name()
}

// guardK: like guard, but delivers the panic through k.
func (e *Engine) guardK(st *State, bad *Term, what string, pos token.Pos, kp func(*State, Outcome), k func(*State)) {
	b := e.simp(st, bad)
	if b.Op == "false" {
		e.countSafe(what, pos)
		k(st)
		return
	}
	if b.Op != "true" && e.infeasible(st, b) {
		e.countSafe(what, pos)
		e.assume(st, e.ts.Not(b))
		k(st)
		return
	}
	rec := func() *panicRec {
		return &panicRec{what: what + " at " + e.posOf(pos), val: e.ts.UF("rtpanic$"+sanitize(what), SAny)}
	}
	if b.Op == "true" {
		kp(st, Outcome{Panic: rec()})
		return
	}
	s2 := st.clone()
	e.assume(st, e.ts.Not(b))
	k(st)
	e.assume(s2, b)
	s2.path = append(s2.path, what)
	kp(s2, Outcome{Panic: rec()})
}

func ret(k func(*State, Outcome), st *State, v Value) { k(st, Outcome{Ret: v}) }

func (e *Engine) builtin(st *State, fr *Frame, c *ssa.CallCommon, name string, args []Value, pos token.Pos, deferred bool, k func(*State, Outcome)) {
	ts := e.ts
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Term:
			ret(k, st, ts.StrLen(x))
		case *SliceV:
			if name == "cap" {
				ret(k, st, x.Cap)
			} else {
				ret(k, st, x.Len)
			}
		case *MapV:
			ret(k, st, e.mapLen(st, x))
		case *ArrayV:
			ret(k, st, ts.IntC(x.T.Len()))
		case *PtrV:
			ret(k, st, ts.IntC(x.Elem.Underlying().(*types.Array).Len()))
		case *ChanV:
			r := ts.Fresh("chanlen", SInt)
			e.assumeFact(st, ts.And(ts.Le(ts.IntC(0), r), ts.Le(r, ts.IntB(maxLen))))
			ret(k, st, r)
		default:
			unsup("len of %T", x)
		}
	case "append":
		e.appendOp(st, c, args, pos, k)
	case "copy":
		d := args[0].(*SliceV)
		if s, ok := args[1].(*SliceV); ok {
			n := ts.Ite(ts.Le(d.Len, s.Len), d.Len, s.Len)
			for _, l := range e.tr.leaves(d.Elem) {
				hk := "e:" + typeKey(d.Elem) + l.Path
				h := e.heapGet(st, hk, ArrSort(ArrSort(l.Sort)))
				src := e.sel(st, h, s.Ref)
				dst := e.sel(st, h, d.Ref)
				st.heap[hk] = ts.Store(h, d.Ref, ts.ArrCopy(dst, d.Off, src, s.Off, n))
			}
			ret(k, st, n)
			return
		}
		unsup("copy from string")
	case "delete":
		e.mapDelete(st, args[0].(*MapV), args[1])
		ret(k, st, nil)
	case "close":
		ch := args[0].(*ChanV)
		bad := ts.Or(e.isNilRef(st, ch.Ref), e.ghostGet(st, "chan.closed", SBool, ch.Ref))
		e.guardK(st, bad, "close of nil or closed channel", pos, k, func(st *State) {
			e.ghostSet(st, "chan.closed", SBool, ch.Ref, ts.True)
			ret(k, st, nil)
		})
	case "panic":
		k(st, Outcome{Panic: &panicRec{val: args[0], what: "panic at " + e.posOf(pos)}})
	case "recover":
		// effective only when called directly by a deferred function while
		// panicking
		if fr.isDeferred && len(st.panics) > 0 {
			p := st.panics[len(st.panics)-1]
			if !p.recovered {
				p2 := *p
				p2.recovered = true
				st.panics = append(append([]*panicRec{}, st.panics[:len(st.panics)-1]...), &p2)
				v, ok := p.val.(*Term)
				if !ok {
					v = ts.UF("rtpanic$", SAny)
				}
				e.assume(st, ts.Not(ts.Is("anil", v)))
				ret(k, st, v)
				return
			}
		}
		ret(k, st, ts.Cons(SAny, "anil"))
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if r.Sort != SInt {
				unsup("min/max on %s", r.Sort)
			}
			if name == "min" {
				r = ts.Ite(ts.Le(r, y), r, y)
			} else {
				r = ts.Ite(ts.Le(y, r), r, y)
			}
		}
		ret(k, st, r)
	case "print", "println":
		ret(k, st, nil)
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		e.guardK(st, e.isNilRef(st, p.Ref), "nil dereference", pos, k, func(st *State) { ret(k, st, p) })
	default:
		unsup("builtin %s", name)
	}
}

// ArrCopy: dst with dst[do..do+n) replaced by src[so..so+n).
func (ts *TermStore) ArrCopy(dst, do, src, so, n *Term) *Term {
	if n.Op == "int" && n.Int.IsInt64() && n.Int.Int64() <= 8 {
		r := dst
		for i := int64(0); i < n.Int.Int64(); i++ {
			r = ts.Store(r, ts.Add(do, ts.IntC(i)), ts.Select(src, ts.Add(so, ts.IntC(i))))
		}
		return r
	}
	return ts.mk("arrcopy", "", dst.Sort, dst, do, src, so, n)
}

func (e *Engine) appendOp(st *State, c *ssa.CallCommon, args []Value, pos token.Pos, k func(*State, Outcome)) {
	ts := e.ts
	d := args[0].(*SliceV)
	s, ok := args[1].(*SliceV)
	if !ok {
		str := args[1].(*Term) // append([]byte, string...)
		ref := e.newRef(st)
		hk := "e:" + typeKey(d.Elem)
		st.heap[hk] = ts.Store(e.heapGet(st, hk, ArrSort(ArrSort(SInt))), ref, ts.UF("bytesOf", ArrSort(SInt), str))
		s = &SliceV{ref, ts.IntC(0), ts.StrLen(str), ts.StrLen(str), d.Elem}
	}
	if s.Len.Op == "int" && s.Len.Int.Sign() == 0 {
		ret(k, st, d)
		return
	}
	n := ts.Add(d.Len, s.Len)
	// the limit on slice lengths is a stated assumption (memory)
	e.assume(st, ts.Le(n, ts.IntB(maxLen)))
	write := func(st *State, ref, off *Term, fresh bool) {
		for _, l := range e.tr.leaves(d.Elem) {
			hk := "e:" + typeKey(d.Elem) + l.Path
			h := e.heapGet(st, hk, ArrSort(ArrSort(l.Sort)))
			src := e.sel(st, h, s.Ref)
			var base *Term
			if fresh {
				base = e.sel(st, h, d.Ref)
				if !(off.Op == "int" && off.Int.Sign() == 0 && d.Off.Op == "int" && d.Off.Int.Sign() == 0) {
					base = ts.ArrCopy(ts.ConstArr(ArrSort(l.Sort), e.zeroLeaf(l.Sort)), off, base, d.Off, d.Len)
				}
			} else {
				base = e.sel(st, h, ref)
			}
			st.heap[hk] = ts.Store(h, ref, ts.ArrCopy(base, ts.Add(off, d.Len), src, s.Off, s.Len))
		}
	}
	inPlace := ts.Le(n, d.Cap)
	e.branch(st, inPlace, "", func(st *State) {
		write(st, d.Ref, d.Off, false)
		ret(k, st, &SliceV{d.Ref, d.Off, n, d.Cap, d.Elem})
	}, func(st *State) {
		ref := e.newRef(st)
		cp := ts.Fresh("cap", SInt)
		e.assume(st, ts.And(ts.Le(n, cp), ts.Le(cp, ts.IntB(maxLen))))
		st.typed[cp] = true
		st.bounds[cp] = [2]*big.Int{zeroBig, maxLen}
		write(st, ref, ts.IntC(0), true)
		ret(k, st, &SliceV{ref, ts.IntC(0), n, cp, d.Elem})
	})
}

// ---- contract intrinsics (see contracts/prelude.go.txt) ----

type modelFn func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome))

var intrinsics map[string]modelFn

func strArg(v Value) string {
	t := v.(*Term)
	if t.Op != "str" {
		unsup("intrinsic needs a literal name")
	}
	return t.Name
}

func init() {
	intrinsics = map[string]modelFn{
		"vRequires": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			e.assume(st, e.simp(st, args[0].(*Term)))
			if st.dead {
				return
			}
			ret(k, st, nil)
		},
		"vCover": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			n := strArg(args[0])
			if e.dry == 0 && e.pure == 0 && !e.run.Covered[n] && !e.infeasible(st, e.ts.True) {
				e.run.Covered[n] = true
			}
			ret(k, st, nil)
		},
		"vEnsures": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			g := args[1].(*Term)
			e.obligation(st, "ensures", strArg(args[0]), "", g)
			e.assume(st, g)
			if st.dead {
				return
			}
			ret(k, st, nil)
		},
		"vForall": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.quant(st, fr, args[0].(*Term), args[1].(*FuncV)))
		},
		"vForallOn": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ts := e.ts
			q := e.quant(st, fr, args[0].(*Term), args[2].(*FuncV))
			if q.Op == "forall" {
				facts := ts.True
				if len(q.Args) > 2 {
					facts = q.Args[2]
				}
				kc := ts.Fresh("k", SInt)
				s2 := st.clone()
				e.assume(s2, ts.Le(ts.IntC(0), kc))
				e.assume(s2, ts.Lt(kc, args[0].(*Term)))
				trig, _ := e.evalPureF(s2, fr, args[1].(*FuncV), []Value{kc})
				trig = ts.Subst(trig, map[*Term]*Term{kc: q.Args[0]})
				switch trig.Op {
				case "select", "strat", "uf":

					q = ts.mk("forall", "", SBool, q.Args[0], q.Args[1], facts, trig)
				}
			}
			ret(k, st, q)
		},
		"vExists": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Not(e.quantN(st, fr, args[0].(*Term), args[1].(*FuncV), true)))
		},
		"vLoopInv": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			x := args[0].(*Term) // boxed func
			if x.Op != "cons" || len(x.Args) != 1 {
				unsup("vLoopInv argument")
			}
			c := e.tr.byName(x.Name)
			fv := e.decode(x.Args, c.Type).(*FuncV)
			st.loopInvs = append(st.loopInvs[:len(st.loopInvs):len(st.loopInvs)], fv)
			ret(k, st, nil)
		},
		"vSame": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Eq(args[0].(*Term), args[1].(*Term)))
		},
		"vField": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ts := e.ts
			x := args[0].(*Term)
			c := e.dictCtor()
			if c == "" || (x.Op == "cons" && x.Name != c) {
				ret(k, st, ts.Cons(SAny, "anil"))
				return
			}
			r := ts.Sel(c, 0, x)
			key := args[1].(*Term)
			ok := ts.And(ts.Is(c, x), ts.Not(ts.Eq(r, ts.IntC(0))), e.sel(st, e.dictHas(st, r), key))
			ret(k, st, ts.Ite(ok, e.sel(st, e.dictVal(st, r), key), ts.Cons(SAny, "anil")))
		},
		"vByte": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			r := e.ts.StrAt(args[0].(*Term), args[1].(*Term))
			if r.Op != "int" {
				e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), r), e.ts.Lt(r, e.ts.IntC(256))))
			}
			ret(k, st, r)
		},
		"vIteInt": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		"vInt": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ts := e.ts
			x := args[0].(*Term)
			c := e.tr.ctor(types.Typ[types.Int64]).Name
			v := ts.Sel(c, 0, x)
			lo, hi := intRange(64, true)
			e.assumeFact(st, ts.Implies(ts.Is(c, x), ts.And(ts.Le(ts.IntB(lo), v), ts.Le(v, ts.IntB(hi)))))
			ret(k, st, ts.Ite(ts.Is(c, x), v, ts.IntC(0)))
		},
		"vFeq": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Eq(args[0].(*Term), args[1].(*Term)))
		},
		"vIte": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		"vAnd": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.And(args[0].(*Term), args[1].(*Term)))
		},
		"vOr": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Or(args[0].(*Term), args[1].(*Term)))
		},
		"vImplies": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.Implies(args[0].(*Term), args[1].(*Term)))
		},
		"vTraceLen": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			n := e.ghost(st, "trace.n", SInt, nil)
			e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), n), e.ts.Le(n, e.ts.IntB(maxLen))))
			ret(k, st, n)
		},
		"vTraceIsCall": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			a := e.ghost(st, "trace.a", ArrSort(SAny), nil)
			fv := args[1].(*FuncV)
			ev := e.ts.UF("event$callfn$func__/i", SAny, e.funcID(fv))
			ret(k, st, e.ts.Eq(e.ts.Select(a, args[0].(*Term)), ev))
		},
		"vTraceIs": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			a := e.ghost(st, "trace.a", ArrSort(SAny), nil)
			key := args[1].(*Term)
			list := args[2].(*SliceV)
			if key.Op != "str" || list.Len.Op != "int" {
				unsup("vTraceIs needs constants")
			}
			var ts []*Term
			for i := int64(0); i < list.Len.Int.Int64(); i++ {
				x := e.load(st, &PtrV{Ref: list.Ref, Key: typeKey(list.Elem), Idx: e.ts.Add(list.Off, e.ts.IntC(i)), Elem: list.Elem}).(*Term)
				if x.Op == "cons" {
					ts = append(ts, x.Args...)
				} else {
					ts = append(ts, x)
				}
			}
			ev := e.ts.UF("event$"+key.Name+"/"+sigStr(ts), SAny, ts...)
			ret(k, st, e.ts.Eq(e.ts.Select(a, args[0].(*Term)), ev))
		},
		"vTraceSame": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			// events recorded since vMark(0) equal those since vMark(1)
			unsup("vTraceSame")
		},
		"vCollect": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.collectChan(st, args[0].(*ChanV), f))
		},
		"vRead": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ghostGet(st, rposKey(args[0].(*ChanV).Elem), SInt, args[0].(*ChanV).Ref))
		},
		"vAt": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.chanElem(st, args[0].(*ChanV), args[1].(*Term)))
		},
		"vSent": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.chanLen(st, args[0].(*ChanV)))
		},
		"vMade": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			i := int(args[0].(*Term).Int.Int64())
			t := f.Fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
			for _, c := range st.made {
				if types.Identical(c.Elem, t) {
					if i == 0 {
						ret(k, st, c)
						return
					}
					i--
				}
			}
			unsup("vMade: no such channel")
		},
		"vResult": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			l, ok := st.last[args[0].(*Term).Name]
			r := l.Ret
			if t, isT := r.(TupleV); isT {
				r = t[args[1].(*Term).Int.Int64()]
			}
			want := f.Fn.Signature.Results().At(0).Type()
			if !ok {
				r = e.zero(want)
			} else if have := l.Res.At(int(args[1].(*Term).Int.Int64())).Type(); types.IsInterface(want) && !types.IsInterface(have) {
				r = e.box(r, have)
			}
			ret(k, st, r)
		},
		"vArg": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			l, ok := st.last[args[0].(*Term).Name]
			if !ok {
				ret(k, st, e.zero(f.Fn.Signature.Results().At(0).Type()))
				return
			}
			ret(k, st, l.Args[args[1].(*Term).Int.Int64()])
		},
		"vFresh": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.freshValue(st, f.Fn.Signature.Results().At(0).Type(), "any"))
		},
		"vCalled": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			_, ok := st.last[args[0].(*Term).Name]
			ret(k, st, map[bool]*Term{true: e.ts.True, false: e.ts.False}[ok])
		},
		"vClosed": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ghostGet(st, "chan.closed", SBool, args[0].(*ChanV).Ref))
		},
		"vCancelled": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ghost(st, "cancelled", SBool, e.ts.False))
		},
		"vOld": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			e.branch(st, e.ts.True, "", func(st *State) { ret(k, st, args[0]) }, nil)
		},
		"vLockHeld": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			n := e.lockCount(st, args[0].(*PtrV))
			e.assume(st, e.ts.Le(e.ts.IntC(0), n))
			ret(k, st, e.ts.Lt(e.ts.IntC(0), n))
		},
		"vIsProof": func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ret(k, st, e.ts.True)
		},
	}
}

func (e *Engine) quant(st *State, fr *Frame, n *Term, f *FuncV) *Term {
	return e.quantN(st, fr, n, f, false)
}

// quantN builds forall k. 0<=k<n -> f(k) (negated body for neg).
func (e *Engine) quantN(st *State, fr *Frame, n *Term, f *FuncV, neg bool) *Term {
	ts := e.ts
	if n.Op == "int" && n.Int.IsInt64() && n.Int.Int64() <= 4 {
		r := ts.True
		for i := int64(0); i < n.Int.Int64(); i++ {
			t := e.evalPure(st, fr, f, []Value{ts.IntC(i)})
			if neg {
				t = ts.Not(t)
			}
			r = ts.And(r, t)
		}
		return r
	}
	kc := ts.Fresh("k", SInt)
	s := st.clone()
	rng := ts.And(ts.Le(ts.IntC(0), kc), ts.Lt(kc, n))
	e.assume(s, ts.Le(ts.IntC(0), kc))
	e.assume(s, ts.Lt(kc, n))
	if s.dead || e.infeasible(s, ts.True) {
		return ts.True
	}
	body, facts := e.evalPureF(s, fr, f, []Value{kc})
	var about []*Term // typing facts about the bound variable
	for _, t := range facts {
		if ts.Mentions(t, kc) {
			about = append(about, t)
		} else {
			e.assumeFact(st, t)
		}
	}
	if neg {
		body = ts.Not(body)
	}
	b := ts.Bound("k", SInt)
	full := ts.Implies(rng, body)
	full = ts.Subst(full, map[*Term]*Term{kc: b})
	if full.Op == "true" {
		return full
	}
	return ts.ForallF(b, full, ts.Subst(ts.And(about...), map[*Term]*Term{kc: b}))
}

// collectChan views everything sent on the channel as a slice.
func (e *Engine) collectChan(st *State, c *ChanV, f *FuncV) Value {
	ts := e.ts
	n := e.chanLen(st, c)
	ref := e.newRef(st)
	for _, l := range e.tr.leaves(c.Elem) {
		hk := "e:" + typeKey(c.Elem) + l.Path
		arr := e.ghostGet(st, e.chanKey(c, l), ArrSort(l.Sort), c.Ref)
		st.heap[hk] = ts.Store(e.heapGet(st, hk, ArrSort(ArrSort(l.Sort))), ref, arr)
	}
	return &SliceV{ref, ts.IntC(0), n, n, c.Elem}
}

// dictCtor: the constructor of *ordereddict.Dict, "" when the program has none.
func (e *Engine) dictCtor() string {
	p := e.ld.Prog.ImportedPackage("github.com/Velocidex/ordereddict")
	if p == nil {
		return ""
	}
	return e.tr.ctor(types.NewPointer(p.Pkg.Scope().Lookup("Dict").Type())).Name
}
