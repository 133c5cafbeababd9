package protocols

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C03: truth values.

// sTruth: the truth value of a built-in value that is not lazy.
func sTruth(a types.Any) (truth bool, ok bool) {
	if sIsNull(a) {
		return false, true
	}
	switch t := a.(type) {
	case bool:
		return t, true
	case int:
		return t > 0, true
	case int8:
		return t > 0, true
	case int16:
		return t > 0, true
	case int32:
		return t > 0, true
	case int64:
		return t > 0, true
	case uint8:
		return t > 0, true
	case uint16:
		return t > 0, true
	case uint32:
		return t > 0, true
	case uint64:
		return t > 0, true
	case float64:
		return t > 0, true
	case string:
		return t != "", true
	case []types.Any:
		return len(t) > 0, true
	case *ordereddict.Dict:
		if t == nil {
			return false, false
		}
		return t.Len() > 0, true
	}
	return false, false
}

// @contract: C03
// @covers: protocols.BoolDispatcher.Bool
func C03_Bool_builtin(ctx context.Context, d BoolDispatcher, scope types.Scope, a types.Any) {
	truth, ok := sTruth(a)
	vRequires(ok)
	vEnsures("truth value of a built-in value", d.Bool(ctx, scope, a) == truth)
}

// @contract: C03
// @covers: protocols.BoolDispatcher.Bool protocols.maybeReduce
func C03_Bool_lazy(ctx context.Context, d BoolDispatcher, scope types.Scope, a types.LazyExpr) {
	v := a.Reduce(context.Background())
	truth, ok := sTruth(v)
	vRequires(ok)
	vEnsures("truth value of an expression is that of its value", d.Bool(ctx, scope, a) == truth)
}

// @contract: C03
// @covers: protocols.BoolDispatcher.Bool
func C03_Bool_other(ctx context.Context, scope types.Scope, a types.Any) {
	_, ok := sTruth(a)
	vRequires(!ok && !sIsLazy(a) && !is_array(a))
	switch t := a.(type) {
	case *string:
		vRequires(t != nil)
		vEnsures("host string", BoolDispatcher{}.Bool(ctx, scope, a) == (*t != ""))
		return
	case *ordereddict.Dict:
		vRequires(t != nil)
	}
	vEnsures("everything else is false without a rule", !BoolDispatcher{}.Bool(ctx, scope, a))
}

// A query counts as true exactly when it has a row.
//
// @contract: C03
// @covers: protocols._StoredQueryBool.Bool
// @norac
func C03_query(q types.StoredQuery, ctx context.Context, scope types.Scope) {
	vRequires(scope.Copy() != nil)
	rows := q.Eval(ctx, scope.Copy())
	b := _StoredQueryBool{}.Bool(ctx, scope, q)
	rest := len(vCollect(rows))
	vEnsures("true: it has a row", vImplies(b, vRead(rows) > 0))
	vEnsures("false: it has none", vImplies(!b, rest == 0))
}
