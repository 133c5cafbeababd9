package protocols

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C14: a lazily evaluated attribute of a host object is evaluated once; both
// ways to read it give that value. (A host function that gives nil gives no
// value and is asked again.)
//
// @contract: C14
// @covers: protocols.LazyFunctionWrapper.Reduce protocols.LazyFunctionWrapper.ReduceWithScope
// @traced: protocols.cbC14
// @effect: protocols.cbC14
// @norac
func C14_wrapper(ctx context.Context, scope types.Scope) {
	l := &LazyFunctionWrapper{cb: cbC14}
	n := vTraceLen()
	a := l.ReduceWithScope(ctx, scope)
	vEnsures("evaluated", vTraceLen() == n+1)
	vRequires(a != nil)
	b := l.Reduce(ctx)
	c := l.ReduceWithScope(ctx, scope)
	vEnsures("once", vTraceLen() == n+1)
	vEnsures("the value", vSame(a, b) && vSame(a, c))
}

// The host's function: any value, another one each time.
func cbC14() types.Any { return nil }
