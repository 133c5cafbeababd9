package main

// Quantifier instantiation before the solvers see a query. Every closed
// quantifier Q = (forall k. B) in a query is replaced by a Boolean constant q
// with two kinds of ground axioms: q or not B[sk] (sk a Skolem constant of Q)
// and not q or B[t] for index terms t found by matching array and function
// applications modulo linear arithmetic. The resulting query is a consequence
// of the original one, so an unsatisfiable answer is conclusive; any other
// answer is decided on the original query.

import (
	"fmt"
	"strings"
)

type instCtx struct {
	ts    *TermStore
	free  map[*Term]map[*Term]bool
	abs   map[*Term]*Term // quantifier -> constant
	quant []*Term
}

func (c *instCtx) freeOf(t *Term) map[*Term]bool {
	if !t.hasBound {
		return nil
	}
	if r, ok := c.free[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	if t.Op == "bound" {
		r[t] = true
	} else {
		for _, a := range t.Args {
			for v := range c.freeOf(a) {
				r[v] = true
			}
		}
		if t.Op == "forall" || t.Op == "forallp" {
			delete(r, t.Args[0])
		}
	}
	c.free[t] = r
	return r
}

func (c *instCtx) closed(t *Term) bool { return len(c.freeOf(t)) == 0 }

// abstract replaces closed quantifiers by constants.
func (c *instCtx) abstract(t *Term, memo map[*Term]*Term) *Term {
	if !t.hasBound {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "forall" && c.closed(t) {
		q, ok := c.abs[t]
		if !ok {
			q = c.ts.Const(fmt.Sprintf("quant!%d", t.ID), SBool)
			c.abs[t] = q
			c.quant = append(c.quant, t)
		}
		r = q
	} else if t.Op == "forall" || t.Op == "forallp" || len(t.Args) == 0 {
		r = t
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = c.abstract(a, memo)
			ch = ch || args[i] != a
		}
		r = t
		if ch {
			r = c.ts.rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// patterns in the body of q: applications with exactly one argument that is
// linear in the bound variable with coefficient 1.
type instPat struct {
	t    *Term
	arg  int
	rest *Term // arg = k + rest
}

func (c *instCtx) patterns(q *Term) []instPat {
	k := q.Args[0]
	var out []instPat
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasBound {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		switch t.Op {
		case "select", "uf", "strat", "sel", "is":
		default:
			return
		}
		pos := -1
		for i, a := range t.Args {
			if !c.freeOf(a)[k] {
				if !c.closed(a) {
					return
				}
				continue
			}
			if pos >= 0 {
				return
			}
			pos = i
		}
		if pos < 0 {
			return
		}
		a := t.Args[pos]
		if a == k {
			out = append(out, instPat{t, pos, c.ts.IntC(0)})
			return
		}
		if a.Sort != SInt || a.Op != "+" {
			return
		}
		l := c.ts.lin(a)
		v := l.ms[k]
		if v == nil || v.Cmp(oneBig) != 0 {
			return
		}
		delete(l.ms, k)
		rest := c.ts.unlin(l)
		if !c.closed(rest) {
			return
		}
		out = append(out, instPat{t, pos, rest})
	}
	if len(q.Args) > 3 {
		// the contract names the trigger
		rec(q.Args[3])
	} else {
		rec(q.Args[1])
	}
	return out
}

func arrBase(t *Term) *Term {
	for t.Op == "store" || t.Op == "arrcopy" {
		t = t.Args[0]
	}
	return t
}

// sameMemory: both arrays are versions of the same part of the heap.
func (s *Solver) sameMemory(a, b *Term) bool {
	ra, rb := s.memRoot(a), s.memRoot(b)
	return ra != "" && ra == rb
}

func (s *Solver) memRoot(t *Term) string {
	d := 0
	for {
		switch t.Op {
		case "select":
			d++
			t = t.Args[0]
		case "store":
			t = t.Args[0]
		case "arrcopy":
			t = t.Args[2]
		case "const":
			if k := s.ts.heapKey[t]; k != "" {
				if strings.HasPrefix(k, "row ") {
					d, k = d+1, k[4:]
				}
				return fmt.Sprintf("%d %s", d, k)
			}
			return ""
		default:
			return ""
		}
	}
}

// instantiate returns the ground abstraction of conj, or ok=false when conj
// has no quantifier.
func (s *Solver) instantiate(conj []*Term, loose bool) (out []*Term, ok bool) {
	has := false
	for _, t := range conj {
		if t.hasBound {
			has = true
		}
	}
	if !has {
		return nil, false
	}
	ts := s.ts
	c := &instCtx{ts: ts, free: map[*Term]map[*Term]bool{}, abs: map[*Term]*Term{}}
	memo := map[*Term]*Term{}
	for _, t := range conj {
		out = append(out, c.abstract(t, memo))
	}
	if len(c.quant) == 0 {
		return nil, false
	}
	ground := map[string][]*Term{}
	seen := map[*Term]bool{}
	var idx []*Term
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "forallp" {
			return
		}
		for _, a := range t.Args {
			scan(a)
		}
		switch t.Op {
		case "select":
			ground["select"] = append(ground["select"], t)
		case "uf", "strat", "sel", "is":
			ground[t.Op+t.Name] = append(ground[t.Op+t.Name], t)
		}
	}
	for _, t := range out {
		scan(t)
	}
	pats := map[*Term][]instPat{}
	done := map[[2]*Term]bool{}
	total := 0
	frozen := false // loose matching: index terms of the query itself only
	add := func(t *Term) {
		t = c.abstract(t, memo)
		if t.Op == "true" {
			return
		}
		out = append(out, t)
		if !loose || !frozen {
			scan(t)
		}
	}
	skolemized := 0
	for round := 0; round < 4; round++ {
		n0 := len(out)
		for ; skolemized < len(c.quant); skolemized++ {
			q := c.quant[skolemized]
			pats[q] = c.patterns(q)
			sk := ts.Const(fmt.Sprintf("sk!%d", q.ID), q.Args[0].Sort)
			if q.Args[0].Sort == SInt {
				idx = append(idx, sk)
			}
			add(ts.Or(c.abs[q], ts.Not(ts.Subst(q.Args[1], map[*Term]*Term{q.Args[0]: sk}))))
			if len(q.Args) > 2 {
				add(ts.Subst(q.Args[2], map[*Term]*Term{q.Args[0]: sk}))
			}
		}
		frozen = true
		for _, q := range append([]*Term{}, c.quant[:skolemized]...) {
			k := q.Args[0]
			inst := func(t *Term) {
				if total > 400 || done[[2]*Term{q, t}] || !c.closed(t) || t.Sort != k.Sort {
					return
				}
				done[[2]*Term{q, t}] = true
				total++
				add(ts.Or(ts.Not(c.abs[q]), ts.Subst(q.Args[1], map[*Term]*Term{k: t})))
				if len(q.Args) > 2 {
					add(ts.Subst(q.Args[2], map[*Term]*Term{k: t}))
				}
			}
			for _, p := range pats[q] {
				key := "select"
				if p.t.Op != "select" {
					key = p.t.Op + p.t.Name
				}
				for _, g := range append([]*Term{}, ground[key]...) {
					if len(g.Args) != len(p.t.Args) {
						continue
					}
					m := true
					for i := range g.Args {
						if i == p.arg {
							continue
						}
						if g.Args[i] != p.t.Args[i] && !(p.t.Op == "select" && (arrBase(g.Args[i]) == arrBase(p.t.Args[i]) || loose && s.sameMemory(g.Args[i], p.t.Args[i]))) {
							m = false
						}
					}
					if !m {
						continue
					}
					if k.Sort == SInt {
						inst(ts.Sub(g.Args[p.arg], p.rest))
					} else {
						inst(g.Args[p.arg])
					}
				}
			}
			if k.Sort == SInt && len(pats[q]) == 0 {
				for _, x := range idx {
					inst(x)
				}
			}
		}
		if len(out) == n0 {
			break
		}
	}
	return out, true
}
