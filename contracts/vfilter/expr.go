package vfilter

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils"
)

// Expression nodes: each node's value is the stated function of its operands'
// values. Sub-expressions are taken through their own contracts (an
// uninterpreted, deterministic result).

// eFold(e, k): ghost function, the value after k operators of the chain e
// (defined by the equations assumed in the contracts, never executed).
func eFold(e any, k int) types.Any { return nil }

// @contract: C01
// @covers: vfilter._AdditionExpression.Reduce
// @opaque: vfilter._MultiplicationExpression.Reduce vfilter.eFold
// @norac
func C01_Addition_chain(e *_AdditionExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil)
	n := len(e.Right)
	vRequires(vForall(n, func(k int) bool {
		t := e.Right[k]
		return t != nil && t.Term != nil && vOr(t.Operator == "+", t.Operator == "-")
	}))
	// the left fold of the operator dispatchers over the operands
	vRequires(vSame(eFold(e, 0), e.Left.Reduce(ctx, scope)))
	vRequires(vForall(n, func(k int) bool {
		t := e.Right[k]
		v := t.Term.Reduce(ctx, scope)
		return vSame(eFold(e, k+1), vIte(t.Operator == "+", scope.Add(eFold(e, k), v), scope.Sub(eFold(e, k), v)))
	}))
	vLoopInv(func(i int, result types.Any) bool { return vSame(result, eFold(e, i)) })
	vEnsures("left-associative chain of + and -", vSame(e.Reduce(ctx, scope), eFold(e, n)))
}

// @contract: C01
// @covers: vfilter._MultiplicationExpression.Reduce
// @opaque: vfilter._MemberExpression.Reduce vfilter._Value.Reduce vfilter.eFold
// @norac
func C01_Multiplication_chain(e *_MultiplicationExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil)
	n := len(e.Right)
	vRequires(vForall(n, func(k int) bool {
		t := e.Right[k]
		return t != nil && t.Factor != nil && vOr(t.Operator == "*", t.Operator == "/")
	}))
	vRequires(vSame(eFold(e, 0), e.Left.Reduce(ctx, scope)))
	vRequires(vForall(n, func(k int) bool {
		t := e.Right[k]
		v := t.Factor.Reduce(ctx, scope)
		return vSame(eFold(e, k+1), vIte(t.Operator == "*", scope.Mul(eFold(e, k), v), scope.Div(eFold(e, k), v)))
	}))
	vLoopInv(func(i int, result types.Any) bool { return vSame(result, eFold(e, i)) })
	vEnsures("left-associative chain of * and /", vSame(e.Reduce(ctx, scope), eFold(e, n)))
}

// @contract: C02
// @covers: vfilter._ConditionOperand.Reduce
// @opaque: vfilter._AdditionExpression.Reduce
// @norac
func C02_Comparison_operators(e *_ConditionOperand, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Not == nil && e.Left != nil && e.Right != nil && e.Right.Right != nil)
	a := e.Left.Reduce(ctx, scope)
	b := e.Right.Right.Reduce(ctx, scope)
	lt, gt, eq := scope.Lt(a, b), scope.Gt(a, b), scope.Eq(a, b)
	r := e.Reduce(ctx, scope)
	switch e.Right.Operator {
	case "<":
		vEnsures("<", vSame(r, lt))
	case ">":
		vEnsures(">", vSame(r, gt))
	case "=":
		vEnsures("=", vSame(r, eq))
	case "!=":
		vEnsures("!= is the negation of =", vSame(r, !eq))
	case "<>":
		vEnsures("<> is the negation of =", vSame(r, !eq))
	case "<=":
		vEnsures("<= is < or =", vSame(r, vOr(lt, eq)))
	case ">=":
		vEnsures(">= is > or =", vSame(r, vOr(gt, eq)))
	}
}

// @contract: C05
// @covers: vfilter._ConditionOperand.Reduce
// @opaque: vfilter._AdditionExpression.Reduce
// @norac
func C05_Membership_operators(e *_ConditionOperand, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Not == nil && e.Left != nil && e.Right != nil && e.Right.Right != nil)
	a := e.Left.Reduce(ctx, scope)
	b := e.Right.Right.Reduce(ctx, scope)
	in, match := scope.Membership(a, b), scope.Match(b, a)
	r := e.Reduce(ctx, scope)
	switch e.Right.Operator {
	case "IN":
		vEnsures("IN asks whether the left side is a member of the right side", vSame(r, in))
	case "=~":
		vEnsures("=~ matches the right side as a pattern against the left side", vSame(r, match))
	}
}

// @contract: C04
// @covers: vfilter._MemberExpression.Reduce
// @opaque: vfilter._Value.Reduce utils.Unquote_ident
// @norac
func C04_Member_index(e *_MemberExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil && len(e.Right) == 1 && e.Right[0] != nil)
	t := e.Right[0]
	vRequires(t.Range == nil && t.Index != nil)
	v, pres := scope.Associative(e.Left.Reduce(ctx, scope), t.Index.Reduce(ctx, scope))
	r := e.Reduce(ctx, scope)
	vEnsures("a[b] is the addressed value or NULL", vAnd(vImplies(pres, vSame(r, v)), vImplies(!pres, vSame(r, types.Null{}))))
}

// @contract: C04
// @covers: vfilter._MemberExpression.Reduce
// @opaque: vfilter._Value.Reduce utils.Unquote_ident
// @norac
func C04_Member_field(e *_MemberExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil && len(e.Right) == 1 && e.Right[0] != nil)
	t := e.Right[0]
	vRequires(t.Range == nil && t.Index == nil && t.Term != nil)
	v, pres := scope.Associative(e.Left.Reduce(ctx, scope), utils.Unquote_ident(*t.Term))
	r := e.Reduce(ctx, scope)
	vEnsures("a.b is the addressed value or NULL", vAnd(vImplies(pres, vSame(r, v)), vImplies(!pres, vSame(r, types.Null{}))))
}

// @contract: C04
// @covers: vfilter._MemberExpression.Reduce
// @opaque: vfilter._Value.Reduce utils.Unquote_ident utils.ToInt64
// @norac
func C04_Member_range(e *_MemberExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil && len(e.Right) == 1 && e.Right[0] != nil)
	t := e.Right[0]
	vRequires(t.Range != nil)
	rec := &assocRecorder{Scope: scope}
	var lo, hi *int64
	bad := false
	if t.Index != nil {
		x, ok := utils.ToInt64(t.Index.Reduce(ctx, rec))
		bad = !ok
		lo = &x
	}
	if t.RangeEnd != nil && !bad {
		x, ok := utils.ToInt64(t.RangeEnd.Reduce(ctx, rec))
		bad = !ok
		hi = &x
	}
	r := e.Reduce(ctx, rec)
	args := rec.args
	vEnsures("a bound that is no number gives NULL", !bad || len(args) == 0 && vSame(r, types.Null{}))
	if bad {
		return
	}
	vEnsures("one request", len(args) == 1)
	l, ok := args[0].([]*int64)
	vEnsures("for a pair of bounds", ok && len(l) == 2)
	vEnsures("an absent lower bound stays absent", (l[0] == nil) == (lo == nil))
	vEnsures("an absent upper bound stays absent", (l[1] == nil) == (hi == nil))
	vEnsures("the lower bound", lo == nil || *l[0] == *lo)
	vEnsures("the upper bound", hi == nil || *l[1] == *hi)
}

// assocRecorder records the requests made to the associative protocol.
type assocRecorder struct {
	types.Scope
	args []types.Any
}

func (self *assocRecorder) Associative(a, b types.Any) (types.Any, bool) {
	self.args = append(self.args, b)
	return a, true
}

// @contract: C04
// @covers: vfilter._MemberExpression.Reduce
// @opaque: vfilter._Value.Reduce utils.Unquote_ident utils.ToInt64
// @norac
func C04_Member_panicfree(e *_MemberExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil)
	vRequires(vForall(len(e.Right), func(k int) bool { return e.Right[k] != nil }))
	r := e.Reduce(ctx, scope)
	vEnsures("subscripts never abort", true)
	_ = r
}

// @contract: C04
// @covers: vfilter._MemberExpression.Reduce
// @opaque: vfilter._Value.Reduce
// @norac
func C04_Member_plain(e *_MemberExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil && len(e.Right) == 0)
	vEnsures("no subscript leaves the value alone", vSame(e.Reduce(ctx, scope), e.Left.Reduce(ctx, scope)))
}

// @contract: C20
// @covers: vfilter._CommaExpression.Reduce
// @opaque: vfilter._AndExpression.Reduce
// @norac
func C20_Comma_list(e *_CommaExpression, ctx context.Context, scope types.Scope) {
	vRequires(e != nil && e.Left != nil)
	n := len(e.Right)
	vRequires(vForall(n, func(k int) bool { return e.Right[k] != nil && e.Right[k].Term != nil }))
	left := e.Left.Reduce(ctx, scope)
	vRequires(left != nil)
	vLoopInv(func(i int, result []types.Any) bool {
		return len(result) == i+1 && vSame(result[0], left) &&
			vForall(i, func(k int) bool { return vSame(result[k+1], e.Right[k].Term.Reduce(ctx, scope)) })
	})
	r := e.Reduce(ctx, scope)
	if e.Right == nil {
		vEnsures("a parenthesised expression is its operand", vSame(r, left))
		return
	}
	l, ok := r.([]types.Any)
	vEnsures("a comma expression is a list", ok)
	vEnsures("with one member per operand", len(l) == n+1)
	vEnsures("the first operand first", vSame(l[0], left))
	vEnsures("then the others in order", vForall(n, func(k int) bool { return vSame(l[k+1], e.Right[k].Term.Reduce(ctx, scope)) }))
}
