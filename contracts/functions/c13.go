package functions

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/aggregators"
	"www.velocidex.com/golang/vfilter/types"
)

// C13: one step of each aggregate. The arguments are those arg_parser
// extracted (C17), the state is that of the scope's aggregator context (C12).

var (
	aggCtx   *aggregators.AggregatorCtx
	aggErr   error
	aggInt   int64
	aggItems types.Any
	aggItem  types.LazyExpr
)

// Assumed contract of ExtractArgsWithContext: an error, or any arguments.
func assumedExtract(ctx context.Context, scope types.Scope, args *ordereddict.Dict, target interface{}) error {
	switch t := target.(type) {
	case *_SumFunctionArgs:
		t.Item = aggInt
	case *_CountFunctionArgs:
		t.Items = aggItems
	case *_EnumeateFunctionArgs:
		t.Items = aggItems
	case *_MinFunctionArgs:
		t.Item = aggItem
	}
	return aggErr
}

func assumedContext(scope types.Scope) types.AggregatorCtx { return aggCtx }

// aggBefore sets the state of id before the step and of another call site.
func aggBefore(id, other string, prev types.Any, pres bool, foreign types.Any) {
	aggCtx = aggregators.NewAggregatorCtx()
	if pres {
		aggSet(id, prev)
	}
	aggSet(other, foreign)
}

func aggSet(id string, v types.Any) {
	aggCtx.Modify(id, func(types.Any, bool) types.Any { return v })
}

func aggGet(id string) (v types.Any, had bool) {
	aggCtx.Modify(id, func(old types.Any, pres bool) types.Any {
		v, had = old, pres
		return old
	})
	return
}

func aggKept(other string, foreign types.Any) bool {
	v, had := aggGet(other)
	return had && vSame(v, foreign)
}

// @contract: C13
// @covers: functions._CountFunction.Call
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract types.Scope.GetAggregatorCtx=assumedContext
// @norac
func C13_count(f _CountFunction, ctx context.Context, scope types.Scope, args *ordereddict.Dict, other string, n uint64, pres bool, foreign types.Any) {
	vRequires(f.id != other)
	aggBefore(f.id, other, n, pres, foreign)
	aggErr = nil
	got := f.Call(ctx, scope, args)
	if !pres {
		n = 0
	}
	vEnsures("one more", vSame(got, n+1))
	st, had := aggGet(f.id)
	vEnsures("remembered", had && vSame(st, n+1))
	vEnsures("own state only", aggKept(other, foreign))
}

// @contract: C13
// @covers: functions._SumFunction.Call
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract types.Scope.GetAggregatorCtx=assumedContext
// @norac
func C13_sum(f _SumFunction, ctx context.Context, scope types.Scope, args *ordereddict.Dict, other string, n, item int64, pres bool, foreign types.Any) {
	vRequires(f.id != other)
	aggBefore(f.id, other, n, pres, foreign)
	aggErr, aggInt = nil, item
	got := f.Call(ctx, scope, args)
	if !pres {
		n = 0
	}
	vEnsures("the item is added", vSame(got, n+item))
	st, had := aggGet(f.id)
	vEnsures("remembered", had && vSame(st, n+item))
	vEnsures("own state only", aggKept(other, foreign))
}

// @contract: C13
// @covers: functions._EnumerateFunction.Call
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract types.Scope.GetAggregatorCtx=assumedContext
// @norac
func C13_enumerate(f _EnumerateFunction, ctx context.Context, scope types.Scope, args *ordereddict.Dict, other string, prev []types.Any, item types.Any, pres bool, foreign types.Any) {
	vRequires(f.id != other)
	vRequires(len(prev) < 1000000)
	aggBefore(f.id, other, prev, pres, foreign)
	aggErr, aggItems = nil, item
	got, ok := f.Call(ctx, scope, args).([]types.Any)
	vEnsures("a list", ok)
	n := len(prev)
	if !pres {
		n = 0
	}
	vEnsures("one longer", len(got) == n+1)
	vEnsures("the item comes last", vSame(got[n], item))
	vEnsures("earlier items are kept", vForall(n, func(i int) bool { return vSame(got[i], prev[i]) }))
	st, had := aggGet(f.id)
	vEnsures("remembered", had && vSame(st, got))
	vEnsures("own state only", aggKept(other, foreign))
}

// aggFits: a value a minimum (maximum) may have after seeing prev and item.
// On ties either may be kept.
func aggFits(scope types.Scope, v, prev, item types.Any, pres, max bool) bool {
	if !pres || types.IsNil(prev) {
		return vSame(v, item)
	}
	if types.IsNil(item) {
		return vSame(v, prev)
	}
	if vSame(v, item) {
		return vIte(max, !scope.Lt(item, prev), !scope.Lt(prev, item)).(bool)
	}
	return vSame(v, prev) && vIte(max, !scope.Lt(prev, item), !scope.Lt(item, prev)).(bool)
}

// @contract: C13
// @covers: functions._MinFunction.Call
// @opaque: types.IsNil
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract types.Scope.GetAggregatorCtx=assumedContext
// @norac
func C13_min(f *_MinFunction, ctx context.Context, scope types.Scope, args *ordereddict.Dict, other string, prev types.Any, item types.LazyExpr, pres bool, foreign types.Any) {
	vRequires(f != nil && f.id != other)
	aggBefore(f.id, other, prev, pres, foreign)
	aggErr, aggItem = nil, item
	got := f.Call(ctx, scope, args)
	x := item.Reduce(ctx)
	vRequires(!(scope.Lt(x, prev) && scope.Lt(prev, x)))
	vEnsures("the least", aggFits(scope, got, prev, x, pres, false))
	st, had := aggGet(f.id)
	vEnsures("remembered", had && vSame(st, got))
	vEnsures("own state only", aggKept(other, foreign))
}

// @contract: C13
// @covers: functions._MaxFunction.Call
// @opaque: types.IsNil
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract types.Scope.GetAggregatorCtx=assumedContext
// @norac
func C13_max(f _MaxFunction, ctx context.Context, scope types.Scope, args *ordereddict.Dict, other string, prev types.Any, item types.LazyExpr, pres bool, foreign types.Any) {
	vRequires(f.id != other)
	aggBefore(f.id, other, prev, pres, foreign)
	aggErr, aggItem = nil, item
	got := f.Call(ctx, scope, args)
	x := item.Reduce(ctx)
	vRequires(!(scope.Lt(x, prev) && scope.Lt(prev, x)))
	vEnsures("the greatest", aggFits(scope, got, prev, x, pres, true))
	st, had := aggGet(f.id)
	vEnsures("remembered", had && vSame(st, got))
	vEnsures("own state only", aggKept(other, foreign))
}

// Arguments that cannot be extracted leave the state alone.
// @contract: C13
// @covers: functions._SumFunction.Call functions._MinFunction.Call functions._MaxFunction.Call functions._EnumerateFunction.Call functions._CountFunction.Call
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract types.Scope.GetAggregatorCtx=assumedContext
// @norac
func C13_rejected(which int, id string, ctx context.Context, scope types.Scope, args *ordereddict.Dict, prev types.Any, err error) {
	vRequires(which >= 0 && which < 5)
	a := Aggregator{id: id}
	aggBefore(id, id+"x", prev, true, nil)
	aggErr = err
	var got types.Any
	switch which {
	case 0:
		got = _CountFunction{a}.Call(ctx, scope, args)
	case 1:
		got = _SumFunction{a}.Call(ctx, scope, args)
	case 2:
		got = _MinFunction{a}.Call(ctx, scope, args)
	case 3:
		got = _MaxFunction{a}.Call(ctx, scope, args)
	case 4:
		got = _EnumerateFunction{a}.Call(ctx, scope, args)
	}
	vEnsures("NULL", vSame(got, types.Null{}))
	st, had := aggGet(id)
	vEnsures("state unchanged", had && vSame(st, prev))
}
