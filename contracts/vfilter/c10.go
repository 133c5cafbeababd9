package vfilter

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C10: which rows a query emits.

// One source row gives one output row when there is no condition or the
// condition holds, and none otherwise.
// @contract: C10
// @covers: vfilter._Select.processSingleRow
// @opaque: vfilter._SelectExpression.Transform vfilter._CommaExpression.Reduce vfilter.MaterializedLazyRow
// @nonnil: types.Scope.Copy vfilter._SelectExpression.Transform types.Scope.Explainer
// @norac
func C10_row(s *_Select, ctx context.Context, scope types.Scope, row Row) {
	vRequires(s != nil)
	out := make(chan Row)
	s.processSingleRow(ctx, scope, row, out)
	got := vCollect(out)
	keep := s.Where == nil
	if !keep {
		v := vResult[Any]("vfilter._CommaExpression.Reduce", 0)
		keep = v != nil && scope.Bool(v)
	}
	if vCancelled() {
		vEnsures("nothing extra when cancelled", len(got) == 0)
		return
	}
	if !keep {
		vEnsures("a rejected row gives nothing", len(got) == 0)
		return
	}
	vEnsures("one row", len(got) == 1)
	vEnsures("the transformed row, materialized", vSame(got[0], vResult[types.Any]("vfilter.MaterializedLazyRow", 0)) &&
		vSame(vArg[Row]("vfilter.MaterializedLazyRow", 1), vResult[types.LazyRow]("vfilter._SelectExpression.Transform", 0)) &&
		vSame(vArg[Row]("vfilter._SelectExpression.Transform", 3), row))
}

// LIMIT n relays the first n rows of the same query without the limit.
// @contract: C10
// @covers: vfilter._Select.Eval
// @nested: vfilter._Select.Eval
// @nonnil: types.Scope.Explainer
// @norac
func C10_limit(s *_Select, ctx context.Context, scope types.Scope) {
	vRequires(s != nil && s.Limit != nil)
	got := vCollect(s.Eval(ctx, scope))
	if *s.Limit <= 0 {
		vEnsures("none", len(got) == 0)
		return
	}
	q := vArg[*_Select]("vfilter._Select.Eval", 0)
	vEnsures("the same query without limit", q.Limit == nil && q.From == s.From && q.Where == s.Where &&
		q.GroupBy == s.GroupBy && q.OrderBy == s.OrderBy && q.OrderByDesc == s.OrderByDesc &&
		q.SelectExpression == s.SelectExpression)
	in := vCollect(vResult[<-chan Row]("vfilter._Select.Eval", 0))
	n := len(in)
	if int64(n) > *s.Limit {
		n = int(*s.Limit)
	}
	vEnsures("at most n rows", len(got) <= n)
	if !vCancelled() {
		vEnsures("n rows", len(got) == n)
	}
	vEnsures("the first ones, in order", vForall(len(got), func(i int) bool { return vSame(got[i], in[i]) }))
}

// Without a limit, grouping or ordering, every source row is processed once,
// in source order, until the source ends or the query is cancelled.
// @contract: C10
// @covers: vfilter._Select.Eval
// @traced: vfilter._Select.processSingleRow
// @opaque: vfilter._From.Eval
// @nonnil: types.Scope.Explainer
// @norac
func C10_stream(s *_Select, ctx context.Context, scope types.Scope) {
	vRequires(s != nil && s.From != nil && s.Limit == nil && s.GroupBy == nil && s.OrderBy == nil)
	in := vCollect(s.From.Eval(ctx, scope))
	t0 := vTraceLen()
	vLoopInv(func(src <-chan Row) bool {
		return vTraceLen() == t0+vRead(src) && vForall(vRead(src), func(i int) bool {
			return vTraceIs(t0+i, "vfilter._Select.processSingleRow", s, ctx, scope, in[i], vMade[Row](0))
		})
	})
	out := s.Eval(ctx, scope)
	n := vTraceLen() - t0
	vEnsures("no row twice", 0 <= n && n <= len(in))
	if !vCancelled() {
		vEnsures("no row left out", n == len(in))
	}
	vEnsures("in source order, to the output", vForall(n, func(i int) bool {
		return vTraceIs(t0+i, "vfilter._Select.processSingleRow", s, ctx, scope, in[i], out)
	}))
	vEnsures("nothing else is emitted", len(vCollect(out)) == 0)
	vEnsures("the output ends", vClosed(out))
}

// The source rows reach the query unchanged.
// @contract: C10
// @covers: vfilter._From.Eval
// @opaque: vfilter.Plugin.Eval
// @nonnil: types.Scope.GetStats
// @norac
func C10_from(f *_From, ctx context.Context, scope types.Scope) {
	vRequires(f != nil)
	in := vCollect(f.Plugin.Eval(ctx, scope))
	out := f.Eval(ctx, scope)
	got := vCollect(out)
	vEnsures("at most the source rows", len(got) <= len(in))
	if !vCancelled() {
		vEnsures("all of them", len(got) == len(in))
	}
	vEnsures("in order", vForall(len(got), func(i int) bool { return vSame(got[i], in[i]) }))
	vEnsures("the output ends", vClosed(out))
}

// A whole statement relays what its query emits.
// @contract: C10
// @covers: vfilter.VQL.Eval
// @opaque: vfilter._Select.Eval vfilter.FormatToString
// @nonnil: types.Scope.Copy
// @norac
func C10_statement(q *VQL, ctx context.Context, scope types.Scope) {
	vRequires(q != nil && q.Let == "" && q.Query != nil)
	out := q.Eval(ctx, scope)
	got := vCollect(out)
	in := vCollect(vResult[<-chan Row]("vfilter._Select.Eval", 0))
	vEnsures("at most the query's rows", len(got) <= len(in))
	if !vCancelled() {
		vEnsures("all of them", len(got) == len(in))
	}
	vEnsures("in order", vForall(len(got), func(i int) bool { return vSame(got[i], in[i]) }))
	vEnsures("the output ends", vClosed(out))
}
