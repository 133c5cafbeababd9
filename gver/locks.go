package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks: one ghost count per mutex, and the fields a contract declares
// @guarded are read and written only while their mutex is held (or while the
// object is new, that is, made in this very call).

func (e *Engine) lockKey(p *PtrV) (string, *Term) {
	if p.Idx == nil {
		return "lock$" + p.Key, p.Ref
	}
	return "lock", e.encPtr(p)
}

func (e *Engine) lockCount(st *State, p *PtrV) *Term {
	k, r := e.lockKey(p)
	return e.ghostGet(st, k, SInt, r)
}

func (e *Engine) lockSet(st *State, p *PtrV, n *Term) {
	k, r := e.lockKey(p)
	e.ghostSet(st, k, SInt, r, n)
}

// lockBase: the count when the current goroutine began.
func (e *Engine) lockBase(st *State, p *PtrV) *Term {
	k, r := e.lockKey(p)
	if h, ok := st.lockBase[k]; ok {
		return e.sel(st, h, r)
	}
	return e.ts.IntC(0)
}

// guardedField: the access to a guarded field that v addresses, or that the
// elements v addresses were reached by.
func (e *Engine) guardedField(v ssa.Value, elem bool) (*ssa.FieldAddr, guardSpec, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return nil, guardSpec{}, ""
		}
		name := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		g, ok := e.run.C.Guarded[name]
		if !ok {
			return nil, guardSpec{}, ""
		}
		f := t.Underlying().(*types.Struct).Field(x.Field).Name()
		el, ok := g.Fields[f]
		if !ok || elem && !el {
			return nil, guardSpec{}, ""
		}
		return x, g, name + "." + f
	case *ssa.IndexAddr:
		return e.guardedField(x.X, true)
	case *ssa.Slice:
		return e.guardedField(x.X, true)
	case *ssa.ChangeType:
		return e.guardedField(x.X, elem)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return e.guardedField(fa, true)
			}
		}
	}
	return nil, guardSpec{}, ""
}

func (e *Engine) guarded(st *State, fr *Frame, addr ssa.Value, pos token.Pos) {
	if e.run.C == nil || e.run.C.Guarded == nil || e.pure > 0 || e.dry > 0 {
		return
	}
	if strings.Contains(e.ld.Fset.Position(fr.fn.Pos()).Filename, "zz_verif_") {
		return // the contract's own text
	}
	fa, g, what := e.guardedField(addr, false)
	if fa == nil {
		return
	}
	p, ok := fr.env[fa.X].(*PtrV)
	if !ok {
		if p, ok = e.val(st, fr, fa.X).(*PtrV); !ok {
			return
		}
	}
	m := &PtrV{Ref: p.Ref, Key: p.Key + "." + g.Mutex, Idx: p.Idx}
	goal := e.ts.Lt(e.lockBase(st, m), e.lockCount(st, m))
	e.obligation(st, "lock", what+" only under its lock", e.posOf(pos), e.ts.Or(goal, e.ts.Le(e.refTerm(1), p.Ref)))
}
