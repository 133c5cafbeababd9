package aggregators

import (
	"www.velocidex.com/golang/vfilter/types"
)

// C12, C13: aggregate state is kept per name in each context.

// @contract: C12
// @covers: aggregators.AggregatorCtx.Modify
func C12_modify(id, other string, a, b, c types.Any) {
	ctx := NewAggregatorCtx()
	get := func(name string) (v types.Any, had bool) {
		ctx.Modify(name, func(old types.Any, pres bool) types.Any {
			v, had = old, pres
			return old
		})
		return
	}
	vRequires(id != other)
	var first bool
	r := ctx.Modify(id, func(old types.Any, pres bool) types.Any { first = pres; return a })
	vEnsures("nothing at first", !first)
	vEnsures("the new value", vSame(r, a))
	ctx.Modify(other, func(old types.Any, pres bool) types.Any { first = pres; return b })
	vEnsures("names do not share state", !first)
	var seen types.Any
	ctx.Modify(id, func(old types.Any, pres bool) types.Any { seen, first = old, pres; return c })
	vEnsures("the old value is passed on", first && vSame(seen, a))
	v, had := get(other)
	vEnsures("other names are left alone", had && vSame(v, b))
	v, had = get(id)
	vEnsures("stored", had && vSame(v, c))
	fresh := NewAggregatorCtx()
	fresh.Modify(id, func(old types.Any, pres bool) types.Any { first = pres; return nil })
	vEnsures("contexts do not share state", !first)
}
