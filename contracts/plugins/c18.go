package plugins

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C18: row sources, given the arguments arg_parser extracted (C17).

var (
	plugErr   error
	plugRange RangePluginArgs
	plugIf    _IfPluginArg
)

// Assumed contract of ExtractArgsWithContext: an error, or any arguments.
func assumedExtract(ctx context.Context, scope types.Scope, args *ordereddict.Dict, target interface{}) error {
	switch t := target.(type) {
	case *RangePluginArgs:
		*t = plugRange
	case *_IfPluginArg:
		*t = plugIf
	}
	return plugErr
}

func rangeValue(row types.Row) int64 { return vInt(vField(row, "_value")) }

// @contract: C18
// @covers: plugins.RangePlugin.Call
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract
// @norac
func C18_range(p RangePlugin, ctx context.Context, scope types.Scope, args *ordereddict.Dict, start, end, step int64) {
	plugErr = nil
	plugRange = RangePluginArgs{Start: start, End: end, Step: step}
	if step == 0 {
		step = 1
	}
	vLoopInv(func(i int64, out chan types.Row) bool {
		n := vSent(out)
		return vImplies(n == 0, i == start) && vImplies(n > 0, i < end && i == rangeValue(vAt(out, n-1))+step && i > rangeValue(vAt(out, n-1)))
	})
	vLoopInv(func(i int64, out chan types.Row) bool {
		return step > 0 && vImplies(vSent(out) > 0, rangeValue(vAt(out, 0)) == start)
	})
	vLoopInv(func(i int64, out chan types.Row) bool {
		return vForall(vSent(out), func(k int) bool {
			_, ok := vField(vAt(out, k), "_value").(int64)
			return ok && rangeValue(vAt(out, k)) < end
		})
	})
	vLoopInv(func(i int64, out chan types.Row) bool {
		return vForall(vSent(out)-1, func(k int) bool { return rangeValue(vAt(out, k+1)) == rangeValue(vAt(out, k))+step })
	})
	out := p.Call(ctx, scope, args)
	got := vCollect(out)
	n := len(got)
	vEnsures("the output ends", vClosed(out))
	if step < 0 || start >= end {
		vEnsures("no rows", n == 0)
		return
	}
	if !vCancelled() {
		vEnsures("not empty", n > 0)
		last := rangeValue(got[n-1])
		vEnsures("up to the end", last+step >= end || last+step < last)
	}
	if n > 0 {
		vEnsures("from the start", rangeValue(got[0]) == start)
	}
	vEnsures("below the end", vForall(n, func(k int) bool { return rangeValue(got[k]) < end }))
	vEnsures("in steps", vForall(n-1, func(k int) bool { return rangeValue(got[k+1]) == rangeValue(got[k])+step }))
}

// @contract: C18
// @covers: plugins._IfPlugin.Call
// @assume: arg_parser.ExtractArgsWithContext=assumedExtract
// @norac
func C18_if(p _IfPlugin, ctx context.Context, scope types.Scope, args *ordereddict.Dict, cond types.Any, then, other types.StoredQuery, noElse bool) {
	plugErr = nil
	plugIf = _IfPluginArg{Condition: cond, Then: then, Else: other}
	if noElse {
		plugIf.Else = nil
	}
	out := p.Call(ctx, scope, args)
	switch {
	case scope.Bool(cond):
		vEnsures("the first branch", out == then.Eval(ctx, scope))
	case !noElse:
		vEnsures("the other branch", out == other.Eval(ctx, scope))
	default:
		vEnsures("no rows", len(vCollect(out)) == 0 && vClosed(out))
	}
}

// @contract: C18
// @covers: plugins.GenericListPlugin.Call
// @norac
func C18_list(ctx context.Context, scope types.Scope, args *ordereddict.Dict, rows []types.Row) {
	p := GenericListPlugin{Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row { return rows }}
	out := p.Call(ctx, scope, args)
	got := vCollect(out)
	vEnsures("the output ends", vClosed(out))
	vEnsures("no row is invented", len(got) <= len(rows))
	if !vCancelled() {
		vEnsures("every row", len(got) == len(rows))
	}
	vEnsures("in order", vForall(len(got), func(k int) bool { return vSame(got[k], rows[k]) }))
}
