package vfilter

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C14: lazy rows. Evaluating a column is an event in the ghost trace.

type lazyGetter = func(ctx context.Context, scope types.Scope) types.Any

// lazyOK: a row as NewLazyRow and AddColumn make it.
func lazyOK(r *LazyRowImpl) bool {
	return r != nil && r.cache != nil && r.cache.GetDefault() == nil && r.getters != nil
}

// @contract: C14
// @covers: vfilter.LazyRowImpl.Get vfilter.LazyRowImpl.Has
// @norac
func C14_get(r *LazyRowImpl, name, other string) {
	vRequires(lazyOK(r) && other != name)
	getter, listed := r.getters[name]
	vRequires(!listed || getter != nil)
	was, cached := r.cache.Get(name)
	owas, ocached := r.cache.Get(other)
	n := vTraceLen()
	vEnsures("has", r.Has(name) == (cached || listed))
	v, ok := r.Get(name)
	vEnsures("present", ok == (cached || listed))
	if cached {
		vEnsures("the value is kept", vSame(v, was))
		vEnsures("not evaluated again", vTraceLen() == n)
	} else if listed {
		vEnsures("evaluated once", vTraceLen() == n+1)
		v2, ok2 := r.Get(name)
		vEnsures("the same value again", ok2 && vSame(v2, v))
		vEnsures("not evaluated twice", vTraceLen() == n+1)
	} else {
		vEnsures("absent is NULL", types.IsNil(v) && vTraceLen() == n)
	}
	ov, op := r.cache.Get(other)
	vEnsures("other columns are left alone", op == ocached && (!op || vSame(ov, owas)))
}

// @contract: C14
// @covers: vfilter.LazyRowImpl.AddColumn vfilter.LazyRowImpl.Columns
// @norac
func C14_add(r *LazyRowImpl, name, other string, getter lazyGetter) {
	vRequires(lazyOK(r) && other != name && getter != nil)
	_, listed := r.getters[name]
	vRequires(!listed)
	before := append([]string{}, r.Columns()...)
	m := len(before)
	owas, ohad := r.cache.Get(other)
	n := vTraceLen()
	r.AddColumn(name, getter)
	cols := r.Columns()
	vEnsures("one more column", len(cols) == m+1)
	vEnsures("at the end", cols[m] == name)
	vEnsures("earlier columns stay", vForall(m, func(i int) bool { return cols[i] == before[i] }))
	_, has := r.getters[name]
	vEnsures("known", has && r.Has(name))
	ov, op := r.cache.Get(other)
	vEnsures("values are kept", op == ohad && (!op || vSame(ov, owas)))
	vEnsures("nothing is evaluated", vTraceLen() == n)
}

// @contract: C14
// @covers: vfilter.LazyRowImpl.AddColumn
// @norac
func C14_again(r *LazyRowImpl, name string, getter lazyGetter, at int) {
	vRequires(lazyOK(r) && getter != nil)
	_, listed := r.getters[name]
	before := append([]string{}, r.columns...)
	m := len(before)
	vRequires(listed && 0 <= at && at < m && before[at] == name)
	vRequires(vForall(m, func(i int) bool { return i == at || before[i] != name }))
	vLoopInv(func(i int) bool { return i <= at })
	r.AddColumn(name, getter)
	cols := r.Columns()
	vEnsures("listed once", len(cols) == m)
	vEnsures("moved to the end", cols[m-1] == name)
	vEnsures("the others keep their order", vForall(m-1, func(i int) bool {
		return cols[i] == vIte(i < at, before[i], before[i+1]).(string)
	}))
}

// @contract: C14
// @covers: vfilter.MaterializedLazyRow
// @norac
func C14_materialize(r *LazyRowImpl, ctx context.Context, scope types.Scope) {
	vRequires(lazyOK(r))
	cols := append([]string{}, r.columns...)
	m := len(cols)
	vRequires(vForall(m, func(i int) bool { return vForall(i, func(j int) bool { return cols[i] != cols[j] }) }))
	vRequires(vForall(m, func(i int) bool { g, ok := r.getters[cols[i]]; return ok && g != nil }))
	vLoopInv(func(i int, d *ordereddict.Dict) bool {
		return d.Len() == i && vForall(i, func(k int) bool { return d.Keys()[k] == cols[k] })
	})
	vLoopInv(func(i int, d *ordereddict.Dict) bool {
		return d != r.cache && d.GetDefault() == nil && vForall(m, func(k int) bool {
			_, ok := d.Get(cols[k])
			return ok == (k < i)
		})
	})
	vLoopInv(func(i int, d *ordereddict.Dict) bool {
		return vForall(i, func(k int) bool {
			a, ok := d.Get(cols[k])
			b, had := r.cache.Get(cols[k])
			return ok && had && vSame(a, b)
		})
	})
	res := MaterializedLazyRow(ctx, r, scope)
	keys := res.Keys()
	vEnsures("as many columns", len(keys) == m)
	vEnsures("in that order", vForall(m, func(i int) bool { return keys[i] == cols[i] }))
	n := vTraceLen()
	vEnsures("with the values of the row", vForall(m, func(i int) bool {
		a, ok := res.Get(cols[i])
		b, had := r.cache.Get(cols[i])
		return ok && had && vSame(a, b)
	}))
	vEnsures("nothing is evaluated again", vTraceLen() == n)
}

// A materialized row is its own materialization.
// @contract: C14
// @covers: vfilter.MaterializedLazyRow
// @norac
func C14_materialized(d *ordereddict.Dict, ctx context.Context, scope types.Scope) {
	vRequires(d != nil)
	vEnsures("as it is", MaterializedLazyRow(ctx, d, scope) == d)
}

// Selected expressions become columns in the order they are written.
// @contract: C14
// @covers: vfilter._SelectExpression.Transform
// @opaque: vfilter._AliasedExpression.GetName
// @nonnil: types.Scope.Copy
// @norac
func C14_transform(s *_SelectExpression, ctx context.Context, scope types.Scope, row Row) {
	vRequires(s != nil && !s.All)
	m := len(s.Expressions)
	name := func(k int) string { return s.Expressions[k].GetName(scope) }
	vRequires(vForall(m, func(k int) bool { return s.Expressions[k] != nil && name(k) != "*" }))
	vRequires(vForall(m, func(k int) bool { return vForall(k, func(j int) bool { return name(k) != name(j) }) }))
	vLoopInv(func(i int, r *LazyRowImpl) bool {
		return len(r.columns) == i && vForall(i, func(k int) bool { return r.columns[k] == name(k) })
	})
	vLoopInv(func(i int, r *LazyRowImpl) bool {
		return vForall(m, func(k int) bool {
			_, ok := r.getters[name(k)]
			return ok == (k < i)
		})
	})
	res, closer := s.Transform(ctx, scope, row)
	cols := res.Columns()
	vEnsures("a closer", closer != nil)
	vEnsures("one column each", len(cols) == m)
	vEnsures("in order", vForall(m, func(k int) bool { return cols[k] == name(k) }))
}
