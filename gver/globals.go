package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Package variables that are only assigned by their package's initialiser
// keep their initial value; constants are known and allocated values are
// known to be non-nil.
type globalInfo struct {
	init  ssa.Value
	multi bool
	// a map with constant entries that is only ever looked up
	entries []*ssa.MapUpdate
	isMap   bool
}

func (ld *Loaded) scanGlobals() {
	ld.globals = map[string]*globalInfo{}
	get := func(g *ssa.Global) *globalInfo {
		i := ld.globals[g.String()]
		if i == nil {
			i = &globalInfo{}
			ld.globals[g.String()] = i
		}
		return i
	}
	for fn := range ssautil.AllFunctions(ld.Prog) {
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						i := get(g)
						if !isInit || i.init != nil {
							i.multi = true
						}
						i.init = s.Val
						continue
					}
				}
				// address taken other than load
				var rands [10]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.X == g {
							continue
						}
						get(g).multi = true
					}
				}
			}
		}
	}
	ld.scanConstMaps()
}

// scanConstMaps finds map variables filled with constants by the initialiser
// and only looked up, ranged over or measured anywhere else.
func (ld *Loaded) scanConstMaps() {
	ok := map[string]bool{}
	for n, g := range ld.globals {
		mm, isM := g.init.(*ssa.MakeMap)
		if g.multi || !isM {
			continue
		}
		good := true
		for _, r := range *mm.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				_, kc := r.Key.(*ssa.Const)
				_, vc := r.Value.(*ssa.Const)
				good = good && r.Map == mm && kc && vc
				g.entries = append(g.entries, r)
			case *ssa.Store:
				good = good && r.Val == mm
			case *ssa.DebugRef:
			default:
				good = false
			}
		}
		ok[n] = good
	}
	for fn := range ssautil.AllFunctions(ld.Prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, isU := in.(*ssa.UnOp)
				if !isU {
					continue
				}
				g, isG := u.X.(*ssa.Global)
				if !isG || !ok[g.String()] {
					continue
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if bi, isB := r.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
							ok[g.String()] = false
						}
					default:
						ok[g.String()] = false
					}
				}
			}
		}
	}
	for n, good := range ok {
		ld.globals[n].isMap = good
	}
}

// constMapGet looks a key up in a constant map variable.
func (e *Engine) constMapGet(x ssa.Value, key Value, m *MapV) (Value, *Term) {
	u, ok := x.(*ssa.UnOp)
	if !ok {
		return nil, nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil, nil
	}
	i := e.ld.globals[g.String()]
	if i == nil || !i.isMap {
		return nil, nil
	}
	ts := e.ts
	k := e.encode(key, m.T.Key())[0]
	in := ts.False
	var ls []*Term
	for _, l := range e.tr.leaves(m.T.Elem()) {
		ls = append(ls, e.zeroLeaf(l.Sort))
	}
	for _, en := range i.entries {
		eq := ts.Eq(k, e.encode(e.constant(en.Key.(*ssa.Const)), m.T.Key())[0])
		in = ts.Or(in, eq)
		for j, t := range e.encode(e.constant(en.Value.(*ssa.Const)), m.T.Elem()) {
			ls[j] = ts.Ite(eq, t, ls[j])
		}
	}
	return e.decode(ls, m.T.Elem()), in
}

func (e *Engine) globalConst(st *State, p *PtrV) Value {
	g := e.ld.globals[strings.TrimPrefix(p.Key, "G:")]
	if g == nil || g.multi || g.init == nil {
		return nil
	}
	switch x := g.init.(type) {
	case *ssa.Const:
		if types.IsInterface(x.Type()) && x.Value != nil {
			return nil
		}
		return e.constant(x)
	case *ssa.MakeInterface:
		if c, ok := x.X.(*ssa.Const); ok {
			return e.box(e.constant(c), c.Type())
		}
	case *ssa.Call, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure:
		v := e.load(st, p)
		if c, ok := x.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f == nil || !(f.String() == "errors.New" || f.String() == "regexp.MustCompile" || f.String() == "fmt.Errorf") {
				return v
			}
		}
		switch y := v.(type) {
		case *Term:
			if y.Sort == SAny {
				e.assume(st, e.ts.Not(e.ts.Is("anil", y)))
			}
		case *PtrV:
			e.assume(st, e.ts.Not(e.isNilRef(st, y.Ref)))
		case *MapV:
			e.assume(st, e.ts.Not(e.isNilRef(st, y.Ref)))
		}
		return v
	case *ssa.Function:
		return &FuncV{Fn: x}
	}
	return nil
}
