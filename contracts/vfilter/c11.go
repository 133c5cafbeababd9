package vfilter

import (
	"context"

	scope_module "www.velocidex.com/golang/vfilter/scope"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils"
)

// C11: what ORDER BY gives the sorter.

// ORDER BY sorts the rows of the same query without it, by the named column.
// @contract: C11
// @covers: vfilter._Select.Eval
// @nested: vfilter._Select.Eval
// @opaque: scope.Scope.Sort scope.Scope.Explainer utils.Unquote_ident
// @nonnil: scope.Scope.Explainer scope.Scope.Sort vfilter._Select.Eval
// @norac
func C11_orderby(s *_Select, ctx context.Context, scope *scope_module.Scope) {
	vRequires(s != nil && scope != nil && s.Explain == nil && s.Limit == nil && s.GroupBy == nil && s.OrderBy != nil)
	key := utils.Unquote_ident(*s.OrderBy)
	out := s.Eval(ctx, scope)
	sort := "scope.Scope.Sort"
	vEnsures("sorted", vCalled(sort))
	vEnsures("by the named column", vArg[string](sort, 4) == key)
	vEnsures("in the requested direction", vArg[bool](sort, 5) == (s.OrderByDesc != nil && *s.OrderByDesc))
	vEnsures("what the sorter emits", out == vResult[<-chan types.Row](sort, 0))
	q := vArg[*_Select]("vfilter._Select.Eval", 0)
	vEnsures("the same query unordered", q.OrderBy == nil && q.From == s.From && q.Where == s.Where &&
		q.SelectExpression == s.SelectExpression && q.Limit == nil && q.GroupBy == nil)
	in := vCollect(vResult[<-chan Row]("vfilter._Select.Eval", 0))
	fed := vCollect(vArg[<-chan types.Row](sort, 3))
	vEnsures("no row is invented", len(fed) <= len(in))
	if !vCancelled() {
		vEnsures("all rows are sorted", len(fed) == len(in))
	}
	vEnsures("the rows", vForall(len(fed), func(i int) bool { return vSame(fed[i], in[i]) }))
	vEnsures("the sorter's input ends", vClosed(vArg[<-chan types.Row](sort, 3)))
}
