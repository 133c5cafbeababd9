package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct {
	T      types.Type
	Fields []Value
}
type PtrV struct {
	Ref  *Term
	Key  string // heap key base: type key of the object plus field path
	Idx  *Term  // non-nil: element of a backing array
	Elem types.Type
}
type SliceV struct {
	Ref, Off, Len, Cap *Term
	Elem               types.Type
}
type FuncV struct {
	Fn       *ssa.Function
	Bindings []Value
	Sym      *Term
	Builtin  *ssa.Builtin
}
type TupleV []Value

// MapV: a map reference; key/value types come from the static type.
type MapV struct {
	Ref *Term
	T   *types.Map
}
type ChanV struct {
	Ref  *Term
	Elem types.Type
}
type IterV struct {
	Kind string // "str", "map"
	X    Value
	Pos  *Term // cell reference (heap "iterpos")
	M    *MapV
	Dom  *Term // map: the domain when the iteration began
}

// keyIdx is the position at which a map iteration visits a key; keyAt is its
// inverse.
func (e *Engine) keyIdx(it *IterV, k *Term) *Term {
	return e.ts.UF("mapidx/"+sanitize(string(k.Sort)), SInt, it.Pos, k)
}
func (e *Engine) keyAt(it *IterV, ks Sort, pos *Term) *Term {
	return e.ts.UF("mapkey/"+sanitize(string(ks)), ks, it.Pos, pos)
}
type ArrayV struct { // array value (copied content)
	T   *types.Array
	Arr map[string]*Term // leaf path -> (Array Int leaf)
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

const fnBase = int64(1) << 40

func (e *Engine) funcID(f *FuncV) *Term {
	if f.Sym != nil {
		return f.Sym
	}
	for i, g := range e.fns {
		if g == f || g.Fn == f.Fn && len(g.Bindings) == 0 && len(f.Bindings) == 0 {
			return e.ts.IntC(fnBase + int64(i))
		}
	}
	e.fns = append(e.fns, f)
	return e.ts.IntC(fnBase + int64(len(e.fns)-1))
}

// encode flattens a value into leaf terms (see TypeReg.leaves).
func (e *Engine) encode(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *StructV:
		var out []*Term
		st := t.Underlying().(*types.Struct)
		for i, f := range x.Fields {
			out = append(out, e.encode(f, st.Field(i).Type())...)
		}
		return out
	case *PtrV:
		return []*Term{e.encPtr(x)}
	case *SliceV:
		return []*Term{x.Ref, x.Off, x.Len, x.Cap}
	case *FuncV:
		return []*Term{e.funcID(x)}
	case *MapV:
		return []*Term{x.Ref}
	case *ChanV:
		return []*Term{x.Ref}
	case *ArrayV:
		unsup("encode array value")
	case nil:
		unsup("encode nil value of type %s", t)
	}
	panic(fmt.Sprintf("encode %T", v))
}

func (e *Engine) encPtr(p *PtrV) *Term {
	if p.Idx == nil && p.Key == typeKey(p.Elem) {
		return p.Ref
	}
	var t *Term
	if p.Idx != nil {
		t = e.ts.UF("iptr$"+p.Key, SInt, p.Ref, p.Idx)
	} else {
		t = e.ts.UF("iptr1$"+p.Key, SInt, p.Ref)
	}
	e.iptrs[t] = p
	return t
}

func (e *Engine) decode(ls []*Term, t types.Type) Value {
	v, rest := e.decode1(ls, t)
	if len(rest) != 0 {
		panic("decode: leftover leaves")
	}
	return v
}

func (e *Engine) decode1(ls []*Term, t types.Type) (Value, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !e.tr.transparent(t) {
			return ls[0], ls[1:]
		}
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = e.decode1(ls, u.Field(i).Type())
			s.Fields = append(s.Fields, f)
		}
		return s, ls
	case *types.Pointer:
		return e.decPtr(ls[0], u.Elem()), ls[1:]
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3], u.Elem()}, ls[4:]
	case *types.Signature:
		if x := ls[0]; x.Op == "int" && x.Int.IsInt64() && x.Int.Int64() >= fnBase {
			return e.fns[x.Int.Int64()-fnBase], ls[1:]
		}
		return &FuncV{Sym: ls[0]}, ls[1:]
	case *types.Map:
		return &MapV{ls[0], u}, ls[1:]
	case *types.Chan:
		return &ChanV{ls[0], u.Elem()}, ls[1:]
	case *types.Array:
		return nil, ls[1:]
	}
	return ls[0], ls[1:]
}

func (e *Engine) decPtr(t *Term, elem types.Type) *PtrV {
	if p, ok := e.iptrs[t]; ok {
		return p
	}
	return &PtrV{Ref: t, Key: typeKey(elem), Elem: elem}
}

func (e *Engine) zeroLeaf(s Sort) *Term {
	switch s {
	case SBool:
		return e.ts.False
	case SInt:
		return e.ts.IntC(0)
	case SStr:
		return e.ts.StrC("")
	case SAny:
		return e.ts.Cons(SAny, "anil")
	case SF64:
		return e.ts.F64C(0)
	case SF32:
		return e.ts.mk("fop", "f64to32", SF32, e.ts.F64C(0))
	case SSeq:
		return e.ts.SeqNil()
	}
	panic("zeroLeaf " + string(s))
}

func (e *Engine) zero(t types.Type) Value {
	var ls []*Term
	for _, l := range e.tr.leaves(t) {
		ls = append(ls, e.zeroLeaf(l.Sort))
	}
	return e.decode(ls, t)
}

// symbolic input value
func (e *Engine) symbolic(st *State, t types.Type, name string) Value {
	var ls []*Term
	for _, l := range e.tr.leaves(t) {
		c := e.ts.Const(name+l.Path, l.Sort)
		ls = append(ls, c)
	}
	v := e.decode(ls, t)
	e.typing(st, v, t)
	return v
}

// havoc value: fresh with typing facts
func (e *Engine) freshValue(st *State, t types.Type, hint string) Value {
	var ls []*Term
	for _, l := range e.tr.leaves(t) {
		ls = append(ls, e.ts.Fresh(hint+l.Path, l.Sort))
	}
	v := e.decode(ls, t)
	e.typing(st, v, t)
	return v
}

// typing adds the facts that follow from a value having its static Go type.
// assumeFact: the term is true of the values themselves, whatever the path.
func (e *Engine) assumeFact(st *State, t *Term) {
	e.factDepth++
	e.assume(st, t)
	e.factDepth--
}

func (e *Engine) typing(st *State, v Value, t types.Type) {
	ts := e.ts
	switch x := v.(type) {
	case *Term:
		if bits, signed, ok := intInfo(t); ok && x.Op != "int" {
			if st.typed[x] {
				return
			}
			st.typed[x] = true
			lo, hi := intRange(bits, signed)
			e.assumeFact(st, ts.Le(ts.IntB(lo), x))
			e.assumeFact(st, ts.Le(x, ts.IntB(hi)))
			if st.bounds != nil {
				st.bounds[x] = [2]*bigInt{lo, hi}
			}
		}
	case *StructV:
		s := x.T.Underlying().(*types.Struct)
		for i, f := range x.Fields {
			e.typing(st, f, s.Field(i).Type())
		}
	case *PtrV:
		e.refFact(st, x.Ref)
	case *MapV:
		e.refFact(st, x.Ref)
	case *ChanV:
		e.refFact(st, x.Ref)
	case *SliceV:
		if st.typed[x.Len] && st.typed[x.Off] {
			return
		}
		e.refFact(st, x.Ref)
		z := ts.IntC(0)
		for _, f := range []*Term{x.Off, x.Len, x.Cap} {
			if f.Op != "int" {
				st.typed[f] = true
				st.bounds[f] = [2]*bigInt{zeroBig, maxLen}
			}
		}
		e.assumeFact(st, ts.And(ts.Le(z, x.Off), ts.Le(z, x.Len), ts.Le(x.Len, x.Cap),
			ts.Le(x.Cap, ts.IntB(maxLen)), ts.Le(x.Off, ts.IntB(maxLen)),
			ts.Implies(ts.Eq(x.Ref, z), ts.And(ts.Eq(x.Cap, z), ts.Eq(x.Len, z)))))
	}
}

func (e *Engine) refFact(st *State, r *Term) {
	if r.Op == "int" || st.typed[r] {
		return
	}
	if _, ok := e.iptrs[r]; ok {
		return
	}
	st.typed[r] = true
	if isOld(r) {
		e.assumeFact(st, e.ts.Le(r, e.ts.IntC(0)))
	} else {
		e.assumeFact(st, e.ts.Lt(r, e.refTerm(st.alloc)))
	}
}

// ---- heap ----

func (e *Engine) heapGet(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := e.ts.Const("H0$"+key, s)
	e.ts.heapKey[t] = key
	st.heap[key] = t
	return t
}

func (e *Engine) load(st *State, p *PtrV) Value {
	t := p.Elem
	if at, ok := t.Underlying().(*types.Array); ok {
		av := &ArrayV{T: at, Arr: map[string]*Term{}}
		ref := e.arrayRef(st, p)
		for _, l := range e.tr.leaves(at.Elem()) {
			av.Arr[l.Path] = e.ts.Select(e.heapGet(st, "e:"+typeKey(at.Elem())+l.Path, ArrSort(ArrSort(l.Sort))), ref)
		}
		return av
	}
	var ls []*Term
	for _, l := range e.tr.leaves(t) {
		ls = append(ls, e.loadLeaf(st, p, l))
	}
	v := e.decode(ls, t)
	e.typing(st, v, t)
	return v
}

func (e *Engine) loadLeaf(st *State, p *PtrV, l Leaf) *Term {
	if p.Idx != nil {
		h := e.heapGet(st, "e:"+p.Key+l.Path, ArrSort(ArrSort(l.Sort)))
		return e.sel(st, e.sel(st, h, p.Ref), p.Idx)
	}
	h := e.heapGet(st, "o:"+p.Key+l.Path, ArrSort(l.Sort))
	return e.sel(st, h, p.Ref)
}

// sel: select with the path's facts deciding read-over-write.
func (e *Engine) sel(st *State, a, i *Term) *Term {
	r := e.ts.Select(a, i)
	n := 0
	for r.Op == "select" && r.Args[0].Op == "store" && n < 200 {
		n++
		// the stored value may itself be a read of another array
		i := r.Args[1]
		eq := e.simp(st, e.ts.Eq(r.Args[0].Args[1], i))
		if eq.Op == "true" {
			return r.Args[0].Args[2]
		}
		if eq.Op == "false" {
			r = e.ts.Select(r.Args[0].Args[0], i)
			continue
		}
		break
	}
	return r
}

func (e *Engine) arrayRef(st *State, p *PtrV) *Term {
	if p.Idx == nil && p.Key == typeKey(p.Elem) {
		return p.Ref // stand-alone array object
	}
	h := e.heapGet(st, "o:"+p.Key+"#arr", ArrSort(SInt))
	return e.sel(st, h, p.Ref)
}

func (e *Engine) store(st *State, p *PtrV, v Value) {
	t := p.Elem
	if at, ok := t.Underlying().(*types.Array); ok {
		av, ok := v.(*ArrayV)
		if !ok {
			unsup("array store")
		}
		ref := e.arrayRef(st, p)
		for _, l := range e.tr.leaves(at.Elem()) {
			k := "e:" + typeKey(at.Elem()) + l.Path
			st.heap[k] = e.ts.Store(e.heapGet(st, k, ArrSort(ArrSort(l.Sort))), ref, av.Arr[l.Path])
		}
		return
	}
	enc := e.encode(v, t)
	for i, l := range e.tr.leaves(t) {
		e.storeLeaf(st, p, l, enc[i])
	}
}

func (e *Engine) storeLeaf(st *State, p *PtrV, l Leaf, v *Term) {
	if p.Idx != nil {
		k := "e:" + p.Key + l.Path
		h := e.heapGet(st, k, ArrSort(ArrSort(l.Sort)))
		st.heap[k] = e.ts.Store(h, p.Ref, e.ts.Store(e.sel(st, h, p.Ref), p.Idx, v))
		return
	}
	k := "o:" + p.Key + l.Path
	h := e.heapGet(st, k, ArrSort(l.Sort))
	st.heap[k] = e.ts.Store(h, p.Ref, v)
}

// refTerm: references allocated on a path are numerals above every machine
// integer, so that they are never confused with integer values.
func (e *Engine) refTerm(n int64) *Term {
	return e.ts.IntB(new(big.Int).Add(refBase, big.NewInt(n)))
}

func (e *Engine) newRef(st *State) *Term {
	r := e.refTerm(st.alloc)
	st.alloc++
	return r
}

func (e *Engine) allocObj(st *State, t types.Type) *PtrV {
	p := &PtrV{Ref: e.newRef(st), Key: typeKey(t), Elem: t}
	if at, ok := t.Underlying().(*types.Array); ok {
		for _, l := range e.tr.leaves(at.Elem()) {
			k := "e:" + typeKey(at.Elem()) + l.Path
			st.heap[k] = e.ts.Store(e.heapGet(st, k, ArrSort(ArrSort(l.Sort))), p.Ref,
				e.ts.ConstArr(ArrSort(l.Sort), e.zeroLeaf(l.Sort)))
		}
		return p
	}
	for _, l := range e.tr.leaves(t) {
		e.storeLeaf(st, p, l, e.zeroLeaf(l.Sort))
	}
	return p
}

// box converts a value of static type t into an Any term.
func (e *Engine) box(v Value, t types.Type) *Term {
	if types.IsInterface(t) {
		return v.(*Term)
	}
	c := e.tr.ctor(t)
	return e.ts.Cons(SAny, c.Name, e.encode(v, t)...)
}

// unbox: payload of an Any known to hold dynamic type t.
func (e *Engine) unbox(st *State, x *Term, t types.Type) Value {
	c := e.tr.ctor(t)
	var ls []*Term
	for i := range c.Fields {
		ls = append(ls, e.ts.Sel(c.Name, i, x))
	}
	v := e.decode(ls, t)
	e.typing(st, v, t)
	return v
}

// contentArgs flattens a value for use as arguments of an uninterpreted
// function; slices are passed by content.
func (e *Engine) contentArgs(st *State, v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *SliceV:
		out := []*Term{x.Len}
		if x.Len.Op == "int" && x.Len.Int.IsInt64() && x.Len.Int.Int64() <= 16 {
			for i := int64(0); i < x.Len.Int.Int64(); i++ {
				el := &PtrV{Ref: x.Ref, Key: typeKey(x.Elem), Idx: e.ts.Add(x.Off, e.ts.IntC(i)), Elem: x.Elem}
				ev := e.load(st, el)
				out = append(out, e.contentArgs(st, ev, x.Elem)...)
			}
			return out
		}
		out = append(out, x.Off)
		for _, l := range e.tr.leaves(x.Elem) {
			h := e.heapGet(st, "e:"+typeKey(x.Elem)+l.Path, ArrSort(ArrSort(l.Sort)))
			out = append(out, e.sel(st, h, x.Ref))
		}
		return out
	case *StructV:
		var out []*Term
		s := x.T.Underlying().(*types.Struct)
		for i, f := range x.Fields {
			out = append(out, e.contentArgs(st, f, s.Field(i).Type())...)
		}
		return out
	}
	return e.encode(v, t)
}

func sigStr(args []*Term) string {
	var s []string
	for _, a := range args {
		switch a.Sort {
		case SInt:
			s = append(s, "i")
		case SAny:
			s = append(s, "a")
		case SStr:
			s = append(s, "s")
		case SBool:
			s = append(s, "b")
		default:
			s = append(s, sanitize(string(a.Sort)))
		}
	}
	return strings.Join(s, "")
}

// ufCall: results of an uninterpreted call, one UF per result leaf.
func (e *Engine) ufCall(st *State, name string, args []*Term, res types.Type) Value {
	n := name + "/" + sigStr(args)
	mkv := func(t types.Type, suffix string) Value {
		var ls []*Term
		for _, l := range e.tr.leaves(t) {
			ls = append(ls, e.ts.UF(n+suffix+l.Path, l.Sort, args...))
		}
		v := e.decode(ls, t)
		e.typing(st, v, t)
		return v
	}
	if tu, ok := res.(*types.Tuple); ok {
		switch tu.Len() {
		case 0:
			return nil
		case 1:
			return mkv(tu.At(0).Type(), "")
		}
		var out TupleV
		for i := 0; i < tu.Len(); i++ {
			out = append(out, mkv(tu.At(i).Type(), fmt.Sprintf("#%d", i)))
		}
		return out
	}
	return mkv(res, "")
}
