package vfilter

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C22 for parsed queries: what a node of a parsed query remembers from one
// evaluation to the next is read and written only under the lock of the node,
// and no lock is held while anything else is evaluated or called (it may be
// the same node, by recursion).

// freeValue, ...: the lock of the node is not held.
func freeValue(n *_Value) bool              { return !vLockHeld(&n.mu) }
func freeSymbol(n *_SymbolRef) bool         { return !vLockHeld(&n.mu) }
func freeColumn(n *_AliasedExpression) bool { return !vLockHeld(&n.mu) }
func freeQuery(n *VQL) bool                 { return !vLockHeld(&n.mu) }
func freePlugin(n *Plugin) bool             { return !vLockHeld(&n.mu) }

// @contract: C22
// @covers: vfilter._Value.Reduce vfilter._Value.maybeParseStrNumber
// @opaque: vfilter._AndExpression.Reduce vfilter._SymbolRef.Reduce vfilter._CommaExpression.Reduce utils.Unquote
// @guarded: vfilter._Value.mu=Int,Float,cache
// @norac
func C22_value(ctx context.Context, scope types.Scope, n *_Value) {
	vRequires(n != nil && scope != nil && freeValue(n))
	n.Reduce(ctx, scope)
	vEnsures("released", freeValue(n))
}

// @contract: C22
// @covers: vfilter._SymbolRef.getFunction
// @guarded: vfilter._SymbolRef.mu=function,split_symbol,negated
// @norac
func C22_symbol(scope types.Scope, n *_SymbolRef) {
	vRequires(n != nil && scope != nil && freeSymbol(n))
	vRequires(len(n.split_symbol) >= 1 || n.split_symbol == nil)
	vLoopInv(func() bool { return freeSymbol(n) })
	n.getFunction(scope)
	vEnsures("released", freeSymbol(n))
}

// @contract: C22
// @covers: vfilter._SymbolRef.callFunction vfilter._SymbolRef.buildArgsFromParameters vfilter._SymbolRef.IsAggregate
// @opaque: vfilter._Array.Reduce vfilter._AndExpression.Reduce vfilter.NewLazyExpr vfilter.CopyFunction vfilter.buildArgsFromParameters
// @guarded: vfilter._SymbolRef.mu=function,split_symbol,negated
// @maypanic
// @norac
func C22_call(ctx context.Context, scope types.Scope, n *_SymbolRef, f types.FunctionInterface) {
	vRequires(n != nil && scope != nil && f != nil && freeSymbol(n))
	vLoopInv(func() bool { return freeSymbol(n) })
	n.callFunction(ctx, scope, f)
	vEnsures("callFunction releases", freeSymbol(n))
	n.buildArgsFromParameters(ctx, scope)
	vEnsures("buildArgsFromParameters releases", freeSymbol(n))
	n.IsAggregate(scope)
	vEnsures("IsAggregate releases", freeSymbol(n))
}

// @contract: C22
// @covers: vfilter._AliasedExpression.GetName
// @opaque: vfilter.FormatToString utils.Unquote_ident
// @guarded: vfilter._AliasedExpression.mu=cache,column_name
// @norac
func C22_column(scope types.Scope, n *_AliasedExpression) {
	vRequires(n != nil && scope != nil && freeColumn(n))
	n.GetName(scope)
	vEnsures("released", freeColumn(n))
}

// @contract: C22
// @covers: vfilter.VQL.getParameters
// @opaque: utils.Unquote_ident
// @guarded: vfilter.VQL.mu=argsCache[],parametersCache[]
// @maypanic
// @norac
func C22_parameters(n *VQL) {
	vRequires(n != nil && freeQuery(n))
	n.getParameters()
	vEnsures("released", freeQuery(n))
}

// @contract: C22
// @covers: vfilter.Plugin.Eval
// @opaque: vfilter.Plugin.resolveSymbol vfilter.Plugin.evalSymbolWithArgs vfilter.Plugin.evalSymbol utils.SplitIdent
// @guarded: vfilter.Plugin.mu=split_name
// @norac
func C22_plugin(ctx context.Context, scope types.Scope, n *Plugin) {
	vRequires(n != nil && scope != nil && freePlugin(n))
	n.Eval(ctx, scope)
	vEnsures("released", freePlugin(n))
}
