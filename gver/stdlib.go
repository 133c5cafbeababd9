package main

// Models (trusted contracts) of external functions. Everything here is listed
// in the evidence as an assumption when a proof uses it.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

var models map[string]modelFn
var ifaceModels map[string]func(e *Engine, st *State, fr *Frame, x *Term, args []Value, pos token.Pos, k func(*State, Outcome))

func nop(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
	res := f.Fn.Signature.Results()
	var v Value
	if res.Len() == 1 {
		v = e.zero(res.At(0).Type())
	} else if res.Len() > 1 {
		unsup("nop with %d results", res.Len())
	}
	ret(k, st, v)
}

func (e *Engine) trust(s string) { e.run.Trusted[s] = true }

// errValue: a fresh non-nil error determined by its description.
func errModel(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
	e.trust(f.Fn.String() + " returns a non-nil error")
	var ts []*Term
	sig := f.Fn.Signature
	for i, a := range args {
		ts = append(ts, e.contentArgs(st, a, sig.Params().At(i).Type())...)
	}
	r := e.ts.UF("err$"+f.Fn.String()+"/"+sigStr(ts), SAny, ts...)
	e.assume(st, e.ts.Not(e.ts.Is("anil", r)))
	ret(k, st, r)
}

func pureModel(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
	e.trust(f.Fn.String() + " is a deterministic total function of its arguments")
	var tys []types.Type
	if r := f.Fn.Signature.Recv(); r != nil {
		tys = append(tys, r.Type())
	}
	tys = append(tys, paramTypes(f.Fn.Signature)...)
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.contentArgs(st, a, tys[i])...)
	}
	ret(k, st, e.ufCall(st, f.Fn.String(), ts, f.Fn.Signature.Results()))
}

// rkind of the value in an interface.
func (e *Engine) rkind(st *State, x *Term) *Term {
	ts := e.ts
	if x.Op == "ite" {
		return ts.Ite(x.Args[0], e.rkind(st, x.Args[1]), e.rkind(st, x.Args[2]))
	}
	if tag := e.knownTag(st, x); tag != "" {
		if tag == "anil" {
			return ts.IntC(0)
		}
		if c := e.tr.byName(tag); c != nil {
			return ts.IntC(int64(kindOf(c.Type)))
		}
	}
	r := ts.UF("rkind", SInt, x)
	if !st.typed[r] {
		st.typed[r] = true
		st.bounds[r] = [2]*big.Int{zeroBig, big.NewInt(26)}
		e.assumeFact(st, ts.And(ts.Le(ts.IntC(0), r), ts.Le(r, ts.IntC(26))))
		e.assume(st, ts.Eq(ts.Is("anil", x), ts.Eq(r, ts.IntC(0))))
		e.run.kinds[x] = r
	}
	return r
}

func (e *Engine) nillableKind(kd *Term) *Term {
	var nillable []*Term
	for _, kk := range []reflect.Kind{reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer} {
		nillable = append(nillable, e.ts.Eq(kd, e.ts.IntC(int64(kk))))
	}
	return e.ts.Or(nillable...)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

// reflect.Value of x is represented by the term reflect.ValueOf(x); other
// reflect.Value terms are opaque.
func rvOf(t *Term) (*Term, bool) {
	if t.Op == "uf" && (t.Name == "rv" || t.Name == "rvi" || t.Name == "rvu") {
		return t.Args[0], true
	}
	return nil, false
}

// A reflect.Value is rv(x) for the value boxed in x, rvi(x) for an
// interface-typed element holding x, and rvu(x) when it is not known which.
func rvForm(v Value) string {
	if t, ok := v.(*Term); ok && t.Op == "uf" {
		return t.Name
	}
	return ""
}

func (e *Engine) rvKind(st *State, v Value) *Term {
	ts := e.ts
	switch rvForm(v) {
	case "rvi":
		return ts.IntC(int64(reflect.Interface))
	case "rvu":
		x := v.(*Term).Args[0]
		r := ts.UF("rekind", SInt, x)
		if !st.typed[r] {
			st.typed[r] = true
			e.assume(st, ts.Or(ts.Eq(r, ts.IntC(int64(reflect.Interface))), ts.And(ts.Eq(r, e.rkind(st, x)), ts.Not(ts.Is("anil", x)))))
		}
		return r
	}
	return e.rkind(st, e.rvArg(v))
}

// rvElem: an element of declared type t with value v.
func (e *Engine) rvElem(v Value, t types.Type) *Term {
	if types.IsInterface(t) {
		return e.ts.UF("rvi", SInt, e.box(v, t))
	}
	return e.ts.UF("rv", SInt, e.box(v, t))
}

func (e *Engine) rvArg(v Value) *Term {
	t := v.(*Term)
	if x, ok := rvOf(t); ok {
		return x
	}
	return e.ts.UF("rvany", SAny, t)
}

// rvCtor resolves the dynamic type of a reflected value, forking on the
// slice types the contract knows about when it is undetermined.
func (e *Engine) withKindFacts(st *State, x *Term) {
	e.rkind(st, x)
}

func init() {
	models = map[string]modelFn{}
	reg := func(m modelFn, names ...string) {
		for _, n := range names {
			models[n] = m
		}
	}
	reg(nop, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"runtime.Gosched", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal")
	lock := func(d int64) modelFn {
		return func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			e.trust("sync.Mutex/RWMutex: Lock/Unlock only change the ghost lock count; no interleaving is modelled")
			p := args[0].(*PtrV)
			n := e.lockCount(st, p)
			if e.run.C != nil && e.run.C.Guarded != nil {
				if d > 0 {
					e.obligation(st, "lock", "no lock is taken twice", e.posOf(pos), e.ts.Le(n, e.lockBase(st, p)))
				} else {
					e.obligation(st, "lock", "only a held lock is released", e.posOf(pos), e.ts.Lt(e.ts.IntC(0), n))
				}
			}
			e.lockSet(st, p, e.ts.Add(n, e.ts.IntC(d)))
			ret(k, st, nil)
		}
	}
	reg(lock(1), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock")
	reg(lock(-1), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock")

	reg(errModel, "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.Wrap")
	reg(pureModel, "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace",
		"strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Contains",
		"strings.Replace", "strings.ReplaceAll", "strings.EqualFold", "strconv.Itoa", "strconv.Quote", "strconv.FormatInt",
		"math.IsNaN", "math.IsInf", "math.Floor", "math.Abs", "unicode.IsSpace", "unicode.IsLetter", "unicode.IsDigit",
		"(*regexp.Regexp).MatchString", "(*regexp.Regexp).String",
		"strconv.ParseInt", "strconv.ParseFloat", "strconv.ParseUint", "strconv.Atoi", "unicode/utf8.RuneCountInString",
		"strings.Count", "strings.Fields", "context.Background", "context.TODO")

	strIndex := func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ts := e.ts
		s := args[0].(*Term)
		r := ts.UF(f.Fn.String(), SInt, s, args[1].(*Term))
		e.trust(f.Fn.String() + " returns -1 or a position inside the string")
		e.typing(st, r, types.Typ[types.Int])
		e.assume(st, ts.And(ts.Le(ts.IntC(-1), r), ts.Or(ts.Lt(r, ts.StrLen(s)), ts.Eq(r, ts.IntC(0)))))
		ret(k, st, r)
	}
	reg(strIndex, "strings.Index", "strings.LastIndex", "strings.IndexRune", "strings.IndexAny")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ts := e.ts
		s, c := args[0].(*Term), args[1].(*Term)
		r := ts.UF(f.Fn.String(), SInt, s, c)
		e.trust(f.Fn.String() + " returns the first position of the byte, or -1")
		e.typing(st, r, types.Typ[types.Int])
		x := ts.Bound("k", SInt)
		at := ts.StrAt(s, x)
		before := ts.Ite(ts.Lt(r, ts.IntC(0)), ts.StrLen(s), r)
		g := ts.And(ts.Le(ts.IntC(0), x), ts.Lt(x, before))
		e.assumeFact(st, ts.And(ts.Le(ts.IntC(-1), r), ts.Lt(r, ts.StrLen(s)),
			ts.Or(ts.Lt(r, ts.IntC(0)), ts.Eq(ts.StrAt(s, r), c)),
			ts.Forall(x, ts.Implies(g, ts.Not(ts.Eq(at, c))))))
		ret(k, st, r)
	}, "strings.IndexByte")
	fix := func(prefix bool) func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		return func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ts := e.ts
			s, p := args[0].(*Term), args[1].(*Term)
			if p.Op != "str" || len(p.Name) > 32 {
				pureModel(e, st, fr, f, args, pos, k)
				return
			}
			e.trust(f.Fn.String() + " compares the bytes at that end")
			off := ts.IntC(0)
			if !prefix {
				off = ts.Sub(ts.StrLen(s), ts.StrLen(p))
			}
			r := ts.Le(ts.StrLen(p), ts.StrLen(s))
			for i := 0; i < len(p.Name); i++ {
				r = ts.And(r, ts.Eq(ts.StrAt(s, ts.Add(off, ts.IntC(int64(i)))), ts.IntC(int64(p.Name[i]))))
			}
			ret(k, st, r)
		}
	}
	reg(fix(true), "strings.HasPrefix")
	reg(fix(false), "strings.HasSuffix")

	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ts := e.ts
		e.trust("strings.Repeat panics on a negative count or a result beyond the address space and otherwise returns len*count bytes")
		s, n := args[0].(*Term), args[1].(*Term)
		prod := ts.Mul(ts.StrLen(s), n)
		bad := ts.Or(ts.Lt(n, ts.IntC(0)), ts.Lt(ts.IntB(maxLen), prod))
		e.guardK(st, bad, "strings.Repeat panics", pos, k, func(st *State) {
			r := ts.UF("strings.Repeat", SStr, s, n)
			e.assume(st, ts.Eq(ts.StrLen(r), prod))
			ret(k, st, r)
		})
	}, "strings.Repeat")

	// reflect
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := args[0].(*Term)
		rt := e.ts.UF("reflect.TypeOf", SAny, x)
		switch e.knownTag(st, x) {
		case "anil":
			ret(k, st, e.ts.Cons(SAny, "anil"))
			return
		case "":
			e.assume(st, e.ts.Eq(e.ts.Is("anil", x), e.ts.Is("anil", rt)))
		default:
			e.assume(st, e.ts.Not(e.ts.Is("anil", rt)))
		}
		ret(k, st, rt)
	}, "reflect.TypeOf")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		e.trust("reflect: Kind, Len, Index, IsNil, IsZero, Interface behave as documented on the modelled dynamic types")
		ret(k, st, e.ts.UF("rv", SInt, args[0].(*Term)))
	}, "reflect.ValueOf")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ret(k, st, e.rvKind(st, args[0]))
	}, "(reflect.Value).Kind")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		if rvForm(args[0]) != "rv" {
			t := e.ts.UF("rvtype", SAny, args[0].(*Term))
			e.assume(st, e.ts.Not(e.ts.Is("anil", t)))
			ret(k, st, t)
			return
		}
		e.guardK(st, e.ts.Is("anil", x), "reflect.Value.Type on the zero Value", pos, k, func(st *State) {
			t := e.ts.UF("reflect.TypeOf", SAny, x)
			e.assume(st, e.ts.Not(e.ts.Is("anil", t)))
			ret(k, st, t)
		})
	}, "(reflect.Value).Type")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		if c := e.tr.byName(e.knownTag(st, x)); c != nil && rvForm(args[0]) == "rv" {
			if b, ok := c.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				ret(k, st, e.ts.Sel(c.Name, 0, x))
				return
			}
		}
		ret(k, st, e.ts.UF("rvstring", SStr, args[0].(*Term)))
	}, "(reflect.Value).String")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ret(k, st, e.rvArg(args[0]))
	}, "(reflect.Value).Interface")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		if rvForm(args[0]) == "rvi" || rvForm(args[0]) == "rvu" {
			ret(k, st, e.ts.True)
			return
		}
		ret(k, st, e.ts.Not(e.ts.Is("anil", e.rvArg(args[0]))))
	}, "(reflect.Value).IsValid")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		ts := e.ts
		switch rvForm(args[0]) {
		case "rvi":
			ret(k, st, ts.Is("anil", x))
			return
		case "rvu":
			kd := e.rvKind(st, args[0])
			e.guardK(st, ts.Not(e.nillableKind(kd)), "reflect.Value.IsNil on a value kind", pos, k, func(st *State) {
				ret(k, st, ts.Or(ts.Is("anil", x), ts.And(ts.Not(ts.Eq(kd, ts.IntC(int64(reflect.Interface)))), ts.UF("risnil", SBool, x))))
			})
			return
		}
		if c := e.tr.byName(e.knownTag(st, x)); c != nil {
			switch c.Type.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
				ret(k, st, ts.Eq(ts.Sel(c.Name, 0, x), ts.IntC(0)))
				return
			}
			k(st, Outcome{Panic: &panicRec{what: "reflect.Value.IsNil on " + c.Type.String(), val: ts.UF("rtpanic$reflect", SAny)}})
			return
		}
		e.guardK(st, ts.Not(e.nillableKind(e.rkind(st, x))), "reflect.Value.IsNil on a value kind", pos, k, func(st *State) {
			ret(k, st, ts.UF("risnil", SBool, x))
		})
	}, "(reflect.Value).IsNil")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		ts := e.ts
		c := e.tr.byName(e.knownTag(st, x))
		if c != nil {
			switch u := c.Type.Underlying().(type) {
			case *types.Slice:
				n := ts.Sel(c.Name, 2, x)
				e.unbox(st, x, c.Type)
				ret(k, st, n)
				return
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					ret(k, st, ts.StrLen(ts.Sel(c.Name, 0, x)))
					return
				}
			case *types.Map:
				ret(k, st, e.mapLen(st, e.unbox(st, x, c.Type).(*MapV)))
				return
			case *types.Array:
				ret(k, st, ts.IntC(u.Len()))
				return
			case *types.Chan:
			default:
				k(st, Outcome{Panic: &panicRec{what: "reflect.Value.Len on " + c.Type.String(), val: ts.UF("rtpanic$reflect", SAny)}})
				return
			}
		}
		kd := e.rkind(st, x)
		var okk []*Term
		for _, kk := range []reflect.Kind{reflect.Chan, reflect.Map, reflect.Array, reflect.Slice, reflect.String} {
			okk = append(okk, ts.Eq(kd, ts.IntC(int64(kk))))
		}
		e.guardK(st, ts.Not(ts.Or(okk...)), "reflect.Value.Len on a kind without length", pos, k, func(st *State) {
			n := ts.UF("rlen", SInt, x)
			if !st.typed[n] {
				st.typed[n] = true
				st.bounds[n] = [2]*big.Int{zeroBig, maxLen}
				e.assumeFact(st, ts.And(ts.Le(ts.IntC(0), n), ts.Le(n, ts.IntB(maxLen))))
			}
			ret(k, st, n)
		})
	}, "(reflect.Value).Len")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		ts := e.ts
		i := args[1].(*Term)
		c := e.tr.byName(e.knownTag(st, x))
		if c != nil {
			switch u := c.Type.Underlying().(type) {
			case *types.Slice:
				s := e.unbox(st, x, c.Type).(*SliceV)
				bad := ts.Or(ts.Lt(i, ts.IntC(0)), ts.Le(s.Len, i))
				e.guardK(st, bad, "reflect: slice index out of range", pos, k, func(st *State) {
					v := e.load(st, &PtrV{Ref: s.Ref, Key: typeKey(s.Elem), Idx: ts.Add(s.Off, i), Elem: s.Elem})
					ret(k, st, e.rvElem(v, u.Elem()))
				})
				return
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					s := ts.Sel(c.Name, 0, x)
					bad := ts.Or(ts.Lt(i, ts.IntC(0)), ts.Le(ts.StrLen(s), i))
					e.guardK(st, bad, "reflect: string index out of range", pos, k, func(st *State) {
						b := ts.StrAt(s, i)
						e.typing(st, b, types.Typ[types.Uint8])
						ret(k, st, ts.UF("rv", SInt, e.box(b, types.Typ[types.Uint8])))
					})
					return
				}
			case *types.Array:
			default:
				k(st, Outcome{Panic: &panicRec{what: "reflect.Value.Index on " + c.Type.String(), val: ts.UF("rtpanic$reflect", SAny)}})
				return
			}
		}
		kd := e.rkind(st, x)
		var okk []*Term
		for _, kk := range []reflect.Kind{reflect.Array, reflect.Slice, reflect.String} {
			okk = append(okk, ts.Eq(kd, ts.IntC(int64(kk))))
		}
		n := ts.UF("rlen", SInt, x)
		if !st.typed[n] {
			st.typed[n] = true
			st.bounds[n] = [2]*big.Int{zeroBig, maxLen}
			e.assumeFact(st, ts.And(ts.Le(ts.IntC(0), n), ts.Le(n, ts.IntB(maxLen))))
		}
		bad := ts.Not(ts.And(ts.Or(okk...), ts.Le(ts.IntC(0), i), ts.Lt(i, n)))
		e.guardK(st, bad, "reflect: index out of range or wrong kind", pos, k, func(st *State) {
			ret(k, st, ts.UF("rvu", SInt, ts.UF("relem", SAny, x, i)))
		})
	}, "(reflect.Value).Index")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		ts := e.ts
		lo, hi := args[1].(*Term), args[2].(*Term)
		c := e.tr.byName(e.knownTag(st, x))
		if c != nil {
			switch u := c.Type.Underlying().(type) {
			case *types.Slice:
				s := e.unbox(st, x, c.Type).(*SliceV)
				bad := ts.Not(ts.And(ts.Le(ts.IntC(0), lo), ts.Le(lo, hi), ts.Le(hi, s.Cap)))
				e.guardK(st, bad, "reflect.Value.Slice: index out of bounds", pos, k, func(st *State) {
					r := &SliceV{s.Ref, ts.Add(s.Off, lo), ts.Sub(hi, lo), ts.Sub(s.Cap, lo), s.Elem}
					ret(k, st, ts.UF("rv", SInt, e.box(r, c.Type)))
				})
				return
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					s := ts.Sel(c.Name, 0, x)
					bad := ts.Not(ts.And(ts.Le(ts.IntC(0), lo), ts.Le(lo, hi), ts.Le(hi, ts.StrLen(s))))
					e.guardK(st, bad, "reflect.Value.Slice: string slice out of bounds", pos, k, func(st *State) {
						ret(k, st, ts.UF("rv", SInt, e.box(ts.Substr(s, lo, hi), c.Type)))
					})
					return
				}
			}
		}
		unsup("reflect.Value.Slice on unknown type")
	}, "(reflect.Value).Slice")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		x := e.rvArg(args[0])
		ts := e.ts
		c := e.tr.byName(e.knownTag(st, x))
		if c != nil {
			if p, ok := c.Type.Underlying().(*types.Pointer); ok {
				pv := e.unbox(st, x, c.Type).(*PtrV)
				if _, isArr := p.Elem().Underlying().(*types.Array); !isArr && (!isStructT(p.Elem()) || e.tr.transparent(p.Elem())) && !types.IsInterface(p.Elem()) {
					e.branch(st, e.isNilRef(st, pv.Ref), "", func(st *State) {
						ret(k, st, ts.UF("rv", SInt, ts.Cons(SAny, "anil")))
					}, func(st *State) {
						v := e.load(st, pv)
						ret(k, st, e.rvElem(v, p.Elem()))
					})
					return
				}
			}
		}
		indirect := f.Fn.Name() == "Indirect"
		switch {
		case rvForm(args[0]) == "rvi":
			if indirect {
				ret(k, st, args[0])
			} else {
				ret(k, st, ts.UF("rv", SInt, x))
			}
			return
		case indirect && c != nil:
			if _, ok := c.Type.Underlying().(*types.Pointer); !ok {
				ret(k, st, args[0])
				return
			}
		case indirect && rvForm(args[0]) == "rv" && e.knownTag(st, x) == "anil":
			ret(k, st, args[0])
			return
		case indirect:
			e.branch(st, ts.Eq(e.rvKind(st, args[0]), ts.IntC(int64(reflect.Ptr))), "", func(st *State) {
				ret(k, st, ts.UF("rvu", SInt, ts.UF("rdelem", SAny, x)))
			}, func(st *State) {
				ret(k, st, args[0])
			})
			return
		}
		ret(k, st, ts.UF("rvu", SInt, ts.UF("rdelem", SAny, x)))
	}, "(reflect.Value).Elem", "reflect.Indirect")

	// time
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		e.trust("time.Time Before/After/Equal order a total instant")
		a, b := e.ts.UF("instant", SInt, args[0].(*Term)), e.ts.UF("instant", SInt, args[1].(*Term))
		switch f.Fn.Name() {
		case "Before":
			ret(k, st, e.ts.Lt(a, b))
		case "After":
			ret(k, st, e.ts.Lt(b, a))
		default:
			ret(k, st, e.ts.Eq(a, b))
		}
	}, "(time.Time).Before", "(time.Time).After", "(time.Time).Equal")
	reg(pureModel, "(time.Time).Unix", "(time.Time).UnixNano", "time.Unix", "(time.Time).IsZero")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ret(k, st, e.freshValue(st, f.Fn.Signature.Results().At(0).Type(), "now"))
	}, "time.Now", "time.Since")

	// context
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		e.trust("context: derived contexts are cancelled only through their parent or their cancel function")
		ctx := e.ts.Fresh("ctx", SAny)
		e.assume(st, e.ts.Not(e.ts.Is("anil", ctx)))
		c := e.ts.Fresh("cancel", SInt)
		e.assume(st, e.ts.Lt(e.ts.IntC(0), c))
		e.run.cancels[c] = true
		ret(k, st, TupleV{ctx, &FuncV{Sym: c}})
	}, "context.WithCancel", "context.WithTimeout")

	// atomics
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		p := args[0].(*PtrV)
		v := e.wrapTo(st, e.ts.Add(e.load(st, p).(*Term), args[1].(*Term)), p.Elem)
		e.store(st, p, v)
		ret(k, st, v)
	}, "sync/atomic.AddUint64", "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint32")
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ret(k, st, e.load(st, args[0].(*PtrV)))
	}, "sync/atomic.LoadUint64", "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32")

	ifaceModels = map[string]func(e *Engine, st *State, fr *Frame, x *Term, args []Value, pos token.Pos, k func(*State, Outcome)){
		"reflect.Type.Kind": func(e *Engine, st *State, fr *Frame, x *Term, args []Value, pos token.Pos, k func(*State, Outcome)) {
			if x.Op == "uf" && strings.HasPrefix(x.Name, "reflect.TypeOf") {
				ret(k, st, e.rkind(st, x.Args[0]))
				return
			}
			ret(k, st, e.ts.UF("rtkind", SInt, x))
		},
	}
	dictModels(reg)
}

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// ---- github.com/Velocidex/ordereddict: a Dict is a finite map with a key
// order; its implementation is outside the repository and trusted. ----

func (e *Engine) dictHas(st *State, r *Term) *Term {
	return e.ghostGet(st, "dict.has", KArrSort(SStr, SBool), r)
}
func (e *Engine) dictVal(st *State, r *Term) *Term {
	return e.ghostGet(st, "dict.val", KArrSort(SStr, SAny), r)
}
func (e *Engine) dictLen(st *State, r *Term) *Term {
	n := e.ghostGet(st, "dict.len", SInt, r)
	if n.Op != "int" && !st.typed[n] {
		st.typed[n] = true
		st.bounds[n] = [2]*big.Int{zeroBig, maxLen}
		e.assumeFact(st, e.ts.And(e.ts.Le(e.ts.IntC(0), n), e.ts.Le(n, e.ts.IntB(maxLen))))
	}
	return n
}
func (e *Engine) dictKeys(st *State, r *Term) *Term {
	return e.ghostGet(st, "dict.keys", ArrSort(SStr), r)
}
func (e *Engine) dictDefault(st *State, r *Term) *Term {
	return e.ghostGet(st, "dict.default", SAny, r)
}

const dictT = "(*github.com/Velocidex/ordereddict.Dict)"

func dictModels(reg func(m modelFn, names ...string)) {
	wrap := func(m modelFn) modelFn {
		return func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			e.trust("ordereddict.Dict is a finite string-keyed map with insertion-ordered unique keys (case sensitive)")
			p := args[0].(*PtrV)
			e.guardK(st, e.isNilRef(st, p.Ref), "nil dereference", pos, k, func(st *State) {
				m(e, st, fr, f, args, pos, k)
			})
		}
	}
	reg(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		t := f.Fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		r := e.newRef(st)
		e.ghostSet(st, "dict.has", KArrSort(SStr, SBool), r, e.ts.ConstArr(KArrSort(SStr, SBool), e.ts.False))
		e.ghostSet(st, "dict.len", SInt, r, e.ts.IntC(0))
		e.ghostSet(st, "dict.default", SAny, r, e.ts.Cons(SAny, "anil"))
		ret(k, st, &PtrV{Ref: r, Key: typeKey(t), Elem: t})
	}, "github.com/Velocidex/ordereddict.NewDict")
	reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		r := args[0].(*PtrV).Ref
		key := args[1].(*Term)
		has := e.sel(st, e.dictHas(st, r), key)
		e.assumeFact(st, e.ts.Implies(has, e.ts.Lt(e.ts.IntC(0), e.dictLen(st, r))))
		e.branch(st, has, "", func(st *State) {
			ret(k, st, TupleV{e.sel(st, e.dictVal(st, r), key), e.ts.True})
		}, func(st *State) {
			ret(k, st, TupleV{e.dictDefault(st, r), e.ts.False})
		})
	}), dictT+".Get")
	reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ret(k, st, e.dictLen(st, args[0].(*PtrV).Ref))
	}), dictT+".Len")
	reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ret(k, st, e.dictDefault(st, args[0].(*PtrV).Ref))
	}), dictT+".GetDefault")
	reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		e.ghostSet(st, "dict.default", SAny, args[0].(*PtrV).Ref, args[1].(*Term))
		ret(k, st, args[0])
	}), dictT+".SetDefault")
	reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		r := args[0].(*PtrV).Ref
		ts := e.ts
		n := e.dictLen(st, r)
		keys := e.dictKeys(st, r)
		has := e.dictHas(st, r)
		ref := e.newRef(st)
		hk := "e:string"
		st.heap[hk] = ts.Store(e.heapGet(st, hk, ArrSort(ArrSort(SStr))), ref, keys)
		// every listed key is present, and keys are distinct
		if n.Op != "int" {
			b := ts.Bound("k", SInt)
			e.assume(st, ts.Forall(b, ts.Implies(ts.And(ts.Le(ts.IntC(0), b), ts.Lt(b, n)), ts.Select(has, ts.Select(keys, b)))))
		}
		ret(k, st, &SliceV{ref, ts.IntC(0), n, n, types.Typ[types.String]})
	}), dictT+".Keys")
	set := func(update bool) modelFn {
		return func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			ts := e.ts
			r := args[0].(*PtrV).Ref
			key, v := args[1].(*Term), args[2].(*Term)
			was := e.sel(st, e.dictHas(st, r), key)
			e.branch(st, was, "", func(st *State) {
				e.ghostSet(st, "dict.val", KArrSort(SStr, SAny), r, ts.Store(e.dictVal(st, r), key, v))
				if !update {
					// the key moves to the end
					nk := ts.Fresh("keys", ArrSort(SStr))
					e.assume(st, ts.Eq(ts.Select(nk, ts.Sub(e.dictLen(st, r), ts.IntC(1))), key))
					e.ghostSet(st, "dict.keys", ArrSort(SStr), r, nk)
				}
				ret(k, st, args[0])
			}, func(st *State) {
				n := e.dictLen(st, r)
				e.ghostSet(st, "dict.has", KArrSort(SStr, SBool), r, ts.Store(e.dictHas(st, r), key, ts.True))
				e.ghostSet(st, "dict.val", KArrSort(SStr, SAny), r, ts.Store(e.dictVal(st, r), key, v))
				e.ghostSet(st, "dict.keys", ArrSort(SStr), r, ts.Store(e.dictKeys(st, r), n, key))
				e.ghostSet(st, "dict.len", SInt, r, ts.Add(n, ts.IntC(1)))
				ret(k, st, args[0])
			})
		}
	}
	reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
		ts := e.ts
		r := args[0].(*PtrV).Ref
		key := args[1].(*Term)
		has := e.dictHas(st, r)
		e.branch(st, e.sel(st, has, key), "", func(st *State) {
			n := e.dictLen(st, r)
			e.assume(st, ts.Lt(ts.IntC(0), n))
			e.ghostSet(st, "dict.has", KArrSort(SStr, SBool), r, ts.Store(has, key, ts.False))
			e.ghostSet(st, "dict.len", SInt, r, ts.Sub(n, ts.IntC(1)))
			e.ghostSet(st, "dict.keys", ArrSort(SStr), r, ts.Fresh("keys", ArrSort(SStr)))
			ret(k, st, nil)
		}, func(st *State) { ret(k, st, nil) })
	}), dictT+".Delete")
	reg(wrap(set(false)), dictT+".Set")
	reg(wrap(set(true)), dictT+".Update")
	for _, ty := range []string{"String", "Bool", "Strings", "Int64", "Any"} {
		reg(wrap(func(e *Engine, st *State, fr *Frame, f *FuncV, args []Value, pos token.Pos, k func(*State, Outcome)) {
			r := args[0].(*PtrV).Ref
			key := args[1].(*Term)
			has := e.sel(st, e.dictHas(st, r), key)
			v := e.sel(st, e.dictVal(st, r), key)
			ret(k, st, e.ufCall(st, f.Fn.String(), []*Term{has, v}, f.Fn.Signature.Results()))
		}), dictT+".Get"+ty)
	}
	_ = fmt.Sprint
}
