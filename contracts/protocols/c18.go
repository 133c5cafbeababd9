package protocols

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C18: iterating over a value.

// isRow: the row is a fresh dict holding just this value.
func iterRow(row types.Row, v types.Any) bool {
	d, ok := row.(*ordereddict.Dict)
	if !ok {
		return false
	}
	x, pres := d.Get("_value")
	return pres && d.Len() == 1 && vSame(x, v)
}

// @contract: C18
// @covers: protocols.IterateDispatcher.Iterate
// @norac
func C18_dict(d *ordereddict.Dict, ctx context.Context, scope types.Scope) {
	vRequires(d != nil)
	disp := IterateDispatcher{}
	out := disp.Iterate(ctx, scope, d)
	got := vCollect(out)
	if vCancelled() {
		vEnsures("nothing extra when cancelled", len(got) == 0)
	} else {
		vEnsures("one row", len(got) == 1 && vSame(got[0], d))
	}
	vEnsures("the output ends", vClosed(out))
}

// A value which is neither a row source, a list nor a dict.
// @contract: C18
// @covers: protocols.IterateDispatcher.Iterate
// @opaque: protocols.is_array types.IsNil
// @norac
func C18_scalar(v types.Any, ctx context.Context, scope types.Scope) {
	switch v.(type) {
	case types.LazyExpr, types.StoredQuery, *ordereddict.Dict:
		return
	}
	vRequires(!is_array(v))
	disp := IterateDispatcher{}
	out := disp.Iterate(ctx, scope, v)
	got := vCollect(out)
	vEnsures("the output ends", vClosed(out))
	if types.IsNil(v) || vCancelled() {
		vEnsures("no row", len(got) == 0)
		return
	}
	vEnsures("one row", len(got) == 1 && iterRow(got[0], v))
}

// Row sources and deferred expressions stand for what they evaluate to.
// @contract: C18
// @covers: protocols.IterateDispatcher.Iterate
// @norac
func C18_source(q types.StoredQuery, l types.LazyExpr, ctx context.Context, scope types.Scope) {
	disp := IterateDispatcher{}
	if _, ok := q.(types.LazyExpr); !ok {
		vEnsures("the rows of the query", disp.Iterate(ctx, scope, q) == q.Eval(ctx, scope))
	}
	vEnsures("the rows of the value", disp.Iterate(ctx, scope, l) == scope.Iterate(ctx, l.Reduce(ctx)))
}

// cnt numbers the members that are not NULL.
// @contract: C18
// @covers: protocols.IterateDispatcher.Iterate protocols._SliceIterator
// @opaque: types.IsNil
// @weight: 2
// @norac
func C18_slice(l []types.Any, cnt []int, ctx context.Context, scope types.Scope) {
	disp := IterateDispatcher{}
	n := len(l)
	vRequires(len(cnt) == n+1 && cnt[0] == 0)
	vRequires(vForall(n, func(k int) bool { return vImplies(types.IsNil(l[k]), cnt[k+1] == cnt[k]) }))
	vRequires(vForall(n, func(k int) bool { return vImplies(!types.IsNil(l[k]), cnt[k+1] == cnt[k]+1) }))
	// so it never decreases
	vRequires(vForall(n+1, func(k int) bool { return cnt[k] >= 0 && cnt[k] <= cnt[n] }))
	vLoopInv(func(i int, out chan types.Row) bool { return vSent(out) == cnt[i] && i >= 0 && i <= n })
	vLoopInv(func(i int, out chan types.Row) bool {
		return vForall(i, func(k int) bool { return cnt[k+1] <= cnt[i] })
	})
	vLoopInv(func(i int, out chan types.Row) bool {
		return vForall(i, func(k int) bool { return types.IsNil(l[k]) || sliceRow(vAt(out, cnt[k]), l[k]) })
	})
	out := disp.Iterate(ctx, scope, l)
	got := vCollect(out)
	vEnsures("the output ends", vClosed(out))
	vEnsures("no row is invented", len(got) <= cnt[n])
	if !vCancelled() {
		vEnsures("one row each", len(got) == cnt[n])
		vEnsures("in order", vForall(n, func(k int) bool { return types.IsNil(l[k]) || sliceRow(got[cnt[k]], l[k]) }))
	}
}

// sliceRow: the row stands for the member.
func sliceRow(row types.Row, v types.Any) bool {
	return vIte(isDict(v), vSame(row, v), vSame(vField(row, "_value"), v)).(bool)
}

func isDict(v types.Any) bool { _, ok := v.(*ordereddict.Dict); return ok }
