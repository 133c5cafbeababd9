package vfilter

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C03: AND, OR and NOT. Sub-expressions are taken through an uninterpreted
// contract whose calls are recorded in the ghost trace, so that the number of
// evaluations is part of the specification.

// @contract: C03
// @covers: vfilter._AndExpression.Reduce
// @traced: vfilter._OrExpression.Reduce
// @norac
func C03_And(e *_AndExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil)
	vRequires(vForall(len(e.Right), func(k int) bool { return e.Right[k] != nil && e.Right[k].Term != nil }))
	vRequires(scope.Bool(true) && !scope.Bool(false))
	left := scope.Bool(e.Left.Reduce(ctx, scope))
	right := func(k int) bool { return scope.Bool(e.Right[k].Term.Reduce(ctx, scope)) }
	n0 := vTraceLen()
	vLoopInv(func(i int) bool { return vTraceLen() == n0+1+i })
	vLoopInv(func(i int) bool { return vForall(i, right) })
	vLoopInv(func(last types.Any) bool { return scope.Bool(last) })
	r := scope.Bool(e.Reduce(ctx, scope))
	c := vTraceLen() - n0
	n := len(e.Right)
	vEnsures("true exactly when every operand is true", r == (left && vForall(n, right)))
	vEnsures("at least the first operand is evaluated, none twice", c >= 1 && c <= n+1)
	vEnsures("nothing is evaluated after a false operand", c == 1 || left && vForall(c-2, right))
	vEnsures("all operands are evaluated unless one is false", c == n+1 || !r)
}

// @contract: C03
// @covers: vfilter._OrExpression.Reduce
// @traced: vfilter._ConditionOperand.Reduce
// @norac
func C03_Or(e *_OrExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil)
	vRequires(vForall(len(e.Right), func(k int) bool { return e.Right[k] != nil && e.Right[k].Term != nil }))
	vRequires(scope.Bool(true) && !scope.Bool(false))
	left := scope.Bool(e.Left.Reduce(ctx, scope))
	notRight := func(k int) bool { return !scope.Bool(e.Right[k].Term.Reduce(ctx, scope)) }
	n0 := vTraceLen()
	vLoopInv(func(i int) bool { return vTraceLen() == n0+1+i })
	vLoopInv(func(i int) bool { return vForall(i, notRight) })
	vLoopInv(func(last types.Any) bool { return !scope.Bool(last) })
	r := scope.Bool(e.Reduce(ctx, scope))
	c := vTraceLen() - n0
	n := len(e.Right)
	vEnsures("false exactly when every operand is false", !r == (!left && vForall(n, notRight)))
	vEnsures("at least the first operand is evaluated, none twice", c >= 1 && c <= n+1)
	vEnsures("nothing is evaluated after a true operand", c == 1 || !left && vForall(c-2, notRight))
	vEnsures("all operands are evaluated unless one is true", c == n+1 || r)
}

// @contract: C03
// @covers: vfilter._ConditionOperand.Reduce
// @maxrec: 2
// @opaque: vfilter._AdditionExpression.Reduce
// @norac
func C03_Not(e *_ConditionOperand, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Not != nil && e.Not.Not == nil && e.Not.Left != nil && e.Not.Right == nil)
	vRequires(scope.Bool(true) && !scope.Bool(false))
	v := scope.Bool(e.Not.Left.Reduce(ctx, scope))
	vEnsures("NOT negates the truth value", scope.Bool(e.Reduce(ctx, scope)) == !v)
}
