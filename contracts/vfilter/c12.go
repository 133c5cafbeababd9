package vfilter

import (
	"context"
	"io"

	scope_module "www.velocidex.com/golang/vfilter/scope"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils"
)

// C12: what the grouper is given.

// @contract: C12
// @covers: vfilter._Select.EvalGroupBy vfilter._Select.Eval
// @opaque: scope.Scope.Sort scope.Scope.Group scope.Scope.Explainer utils.Unquote_ident vfilter._From.Eval
// @nonnil: scope.Scope.Explainer scope.Scope.Sort scope.Scope.Group vfilter._From.Eval
// @norac
func C12_groupby(s *_Select, ctx context.Context, scope *scope_module.Scope) {
	vRequires(s != nil && scope != nil && s.Explain == nil && s.Limit == nil && s.GroupBy != nil && s.From != nil)
	out := s.Eval(ctx, scope)
	group, sort := "scope.Scope.Group", "scope.Scope.Sort"
	vEnsures("grouped", vCalled(group))
	a := vArg[types.GroupbyActor](group, 3).(*GroupbyActor)
	vEnsures("this query's rows", a.delegate == s && a.row_source == vResult[<-chan Row]("vfilter._From.Eval", 0))
	bins := vResult[<-chan types.Row](group, 0)
	if s.OrderBy == nil {
		vEnsures("the bins", out == bins)
		return
	}
	vEnsures("by the named column", vArg[string](sort, 4) == utils.Unquote_ident(*s.OrderBy))
	vEnsures("in the requested direction", vArg[bool](sort, 5) == (s.OrderByDesc != nil && *s.OrderByDesc))
	vEnsures("what the sorter emits", out == vResult[<-chan types.Row](sort, 0))
	in := vCollect(bins)
	fed := vCollect(vArg[<-chan types.Row](sort, 3))
	vEnsures("no bin is invented", len(fed) <= len(in))
	if !vCancelled() {
		vEnsures("all bins are sorted", len(fed) == len(in))
	}
	vEnsures("the bins in order", vForall(len(fed), func(i int) bool { return vSame(fed[i], in[i]) }))
	vEnsures("the sorter's input ends", vClosed(vArg[<-chan types.Row](sort, 3)))
}

// A row given to the grouper is a source row that passes the condition, with
// the text form of its GROUP BY value as key.
// @contract: C12
// @covers: vfilter.GroupbyActor.GetNextRow
// @opaque: vfilter._SelectExpression.Transform vfilter._CommaExpression.Reduce types.ToString
// @effect: types.Scope.Copy
// @nonnil: types.Scope.Copy vfilter._SelectExpression.Transform
// @norac
func C12_next(a *GroupbyActor, ctx context.Context, scope types.Scope) {
	vRequires(a != nil && a.delegate != nil && a.delegate.SelectExpression != nil && a.delegate.GroupBy != nil)
	src := a.row_source
	vRequires(src != nil && vRead(src) == 0)
	n := vSent(src)
	w := a.delegate.Where
	g := a.delegate.GroupBy
	vRequires(w != g && io.EOF != nil)
	vLoopInv(func(src <-chan types.Row) bool { return w != nil || vRead(src) == 0 })
	lazy, row, key, sub, err := a.GetNextRow(ctx, scope)
	if err != nil {
		vEnsures("no more rows", err == io.EOF && vRead(src) == n)
		return
	}
	vEnsures("a source row", vRead(src) >= 1 && vSame(row, vAt(src, vRead(src)-1)))
	vEnsures("transformed", vSame(lazy, vResult[types.LazyRow]("vfilter._SelectExpression.Transform", 0)) &&
		vSame(vArg[Row]("vfilter._SelectExpression.Transform", 3), row))
	vEnsures("in its own scope", vSame(sub, vResult[types.Scope]("types.Scope.Copy", 0)))
	if w != nil {
		v := w.Reduce(ctx, sub)
		vEnsures("passing the condition", v != nil && scope.Bool(v))
	}
	vEnsures("its key", key == types.ToString(ctx, sub, g.Reduce(ctx, sub)))
	if w == nil {
		vEnsures("the next row", vRead(src) == 1)
	}
}
