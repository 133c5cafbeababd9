package vfilter

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C21: parameters are bound by name, defaults first.

// Binding the arguments of one call, for any arguments and any set of
// defaults: a name keeps its argument, and is otherwise bound to its own
// default or not at all.
//
// @contract: C21
// @opaque: vfilter._AndExpression.Reduce vfilter._CommaExpression.Reduce
// @covers: vfilter.applyDefaults
// @norac
// @maypanic
func C21_defaults(ctx context.Context, scope types.Scope, args *ordereddict.Dict, defaults map[string]*_Args, name string) {
	vRequires(args != nil)
	d, declared := defaults[name]
	vRequires(!declared || d != nil && d.Right != nil)
	before, had := args.Get(name)
	vLoopInv(func() bool {
		v, has := args.Get(name)
		return has == had && vSame(v, before) ||
			!had && has && declared && vSame(v, d.Right.Reduce(ctx, scope))
	})
	applyDefaults(ctx, scope, args, defaults)
	after, has := args.Get(name)
	vEnsures("an argument wins over the default", !had || has && vSame(after, before))
	vEnsures("only declared names are bound", !has || had || declared)
	vEnsures("the default of its own name", had || !has || vSame(after, d.Right.Reduce(ctx, scope)))
}

// With a single default.
//
// @contract: C21
// @opaque: vfilter._AndExpression.Reduce
// @covers: vfilter.applyDefaults
// @norac
func C21_default(ctx context.Context, scope types.Scope, args *ordereddict.Dict, d *_Args, name string) {
	vRequires(args != nil && d != nil && d.Right != nil)
	before, had := args.Get(name)
	vLoopInv(func(i int) bool {
		v, has := args.Get(name)
		if i == 0 || had {
			return has == had && vSame(v, before)
		}
		return has && vSame(v, d.Right.Reduce(ctx, scope))
	})
	applyDefaults(ctx, scope, args, map[string]*_Args{name: d})
	after, has := args.Get(name)
	vEnsures("bound", has)
	vEnsures("an argument wins over the default", !had || vSame(after, before))
	vEnsures("the default otherwise", had || vSame(after, d.Right.Reduce(ctx, scope)))
}

// The arguments of one call, evaluated in the caller's scope in order.
//
// @contract: C21
// @opaque: vfilter._AndExpression.Reduce
// @covers: vfilter.buildArgsFromParameters
// @norac
func C21_arguments(ctx context.Context, scope types.Scope, a, b *_AndExpression) {
	vRequires(a != nil && b != nil)
	args := buildArgsFromParameters(ctx, scope, []*_Args{{Left: "x", Right: a}, {Left: "y", Right: b}})
	x, ok := args.Get("x")
	vEnsures("first", ok && vSame(x, a.Reduce(ctx, scope)))
	y, ok := args.Get("y")
	vEnsures("second", ok && vSame(y, b.Reduce(ctx, scope)))
}

// c21Value: what a parameter is bound to: the value of a lazy argument, the
// rows of a query.
func c21Value(ctx context.Context, scope types.Scope, v Any) Any {
	switch t := v.(type) {
	case types.LazyExpr:
		return t.Reduce(ctx)
	case types.StoredQuery:
		return types.Materialize(ctx, scope, t)
	}
	return v
}

// Calling a stored function: the body is evaluated in a copy of the caller's
// scope whose newest bindings are the arguments, by name, over the defaults.
//
// @contract: C21
// @opaque: vfilter._AndExpression.Reduce vfilter.StoredExpression.checkCallingArgs types.Scope.Copy types.Materialize
// @traced: types.Scope.AppendVars
// @covers: vfilter.StoredExpression.Call
// @norac
// @maypanic
func C21_function_call(ctx context.Context, scope types.Scope, self *StoredExpression, args *ordereddict.Dict, i int) {
	vRequires(self != nil && self.Expr != nil && args != nil && self.defaults == nil)
	keys := args.Keys()
	vRequires(0 <= i && i < len(keys))
	name := keys[i]
	v, _ := args.Get(name)
	vLoopInv(func(vars *ordereddict.Dict, n int) bool {
		return vForall(n, func(k int) bool {
			x, ok := vars.Get(keys[k])
			a, _ := args.Get(keys[k])
			return ok && vSame(x, c21Value(ctx, scope, a))
		})
	})
	got := self.Call(ctx, scope, args)
	sub := vArg[types.Scope]("types.Scope.AppendVars", 0)
	vEnsures("bound in a copy of the caller's scope", vSame(sub, scope.Copy()))
	b, ok := vArg[types.Row]("types.Scope.AppendVars", 1).(*ordereddict.Dict)
	vEnsures("a set of bindings", ok)
	x, ok := b.Get(name)
	vEnsures("the argument under its name", ok && vSame(x, c21Value(ctx, scope, v)))
	bound := vResult[types.Scope]("types.Scope.AppendVars", 0)
	vEnsures("the value of the body", vSame(got, self.Expr.Reduce(ctx, sub)) || vSame(got, self.Expr.Reduce(ctx, bound)))
}

// Calling a stored query, as a row source.
//
// @contract: C21
// @opaque: vfilter._StoredQuery.checkCallingArgs types.Materialize
// @effect: types.Scope.Copy
// @nonnil: types.Scope.Copy
// @traced: types.Scope.AppendVars vfilter._StoredQuery.Eval
// @covers: vfilter._StoredQuery.Call
// @norac
// @maypanic
func C21_query_call(ctx context.Context, scope types.Scope, self *_StoredQuery, args *ordereddict.Dict, i int) {
	vRequires(self != nil && args != nil)
	keys := args.Keys()
	vRequires(0 <= i && i < len(keys))
	name := keys[i]
	v, _ := args.Get(name)
	vRequires(!isLazyArg(v))
	vLoopInv(func(vars *ordereddict.Dict, n int) bool {
		return vForall(n, func(k int) bool {
			x, ok := vars.Get(keys[k])
			a, _ := args.Get(keys[k])
			return ok && (isLazyArg(a) || vSame(x, a))
		})
	})
	self.Call(ctx, scope, args)
	sub := vArg[types.Scope]("types.Scope.AppendVars", 0)
	vEnsures("bound in a copy of the caller's scope", vSame(sub, vResult[types.Scope]("types.Scope.Copy", 0)))
	b, ok := vArg[types.Row]("types.Scope.AppendVars", 1).(*ordereddict.Dict)
	vEnsures("a set of bindings", ok)
	x, ok := b.Get(name)
	vEnsures("the argument under its name", ok && vSame(x, v))
	in := vArg[types.Scope]("vfilter._StoredQuery.Eval", 2)
	vEnsures("the query in that scope", vSame(in, sub) || vSame(in, vResult[types.Scope]("types.Scope.AppendVars", 0)))
}

func isLazyArg(v Any) bool {
	switch v.(type) {
	case types.LazyExpr, types.Materializer, types.StoredQuery:
		return true
	}
	return false
}

// Applying a lambda.
//
// @contract: C21
// @opaque: vfilter._AndExpression.Reduce types.Scope.Copy types.Scope.Log
// @traced: types.Scope.AppendVars
// @covers: vfilter.Lambda.Reduce vfilter.Lambda.GetParameters
// @norac
// @maypanic
func C21_lambda(ctx context.Context, scope types.Scope, e *_AndExpression, p, q string, v, w Any, given []Any) {
	vRequires(e != nil && p != q)
	one := &Lambda{Parameters: &_ParameterList{Left: p}, Expression: e}
	n0 := vTraceLen()
	vEnsures("as many arguments as parameters", len(given) == 1 || vSame(one.Reduce(ctx, scope, given), Null{}) && vTraceLen() == n0)
	two := &Lambda{Parameters: &_ParameterList{Left: p, Right: &_ParameterListTerm{Term: &_ParameterList{Left: q}}}, Expression: e}
	two.Reduce(ctx, scope, []Any{v, w})
	b, ok := vArg[types.Row]("types.Scope.AppendVars", 1).(*ordereddict.Dict)
	vEnsures("a set of bindings", ok)
	x, ok1 := b.Get(p)
	y, ok2 := b.Get(q)
	vEnsures("bound in order", ok1 && ok2 && vSame(x, v) && vSame(y, w))
}
