package protocols

import (
	"context"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C02: comparisons. The kinds of the comparable built-in values.

func c02Time(x types.Any) bool {
	switch t := x.(type) {
	case time.Time:
		return true
	case *time.Time:
		return t != nil
	}
	return false
}

// 0 none, 1 NULL, 2 number or boolean, 3 string, 4 time
func c02Kind(x types.Any) int {
	if sIsNull(x) {
		return 1
	}
	if sNumOf(x).ok {
		return 2
	}
	if sIsStr(x) {
		return 3
	}
	if c02Time(x) {
		return 4
	}
	return 0
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt protocols.toTime
func C02_Lt_mirrors_Gt(scope types.Scope, a, b types.Any) {
	vRequires(c02Kind(a) != 0 && c02Kind(b) != 0)
	vEnsures("a < b exactly when b > a", LtDispatcher{}.Lt(scope, a, b) == GtDispatcher{}.Gt(scope, b, a))
}

// @contract: C02
// @covers: protocols.EqDispatcher.Eq
func C02_Eq_symmetric(scope types.Scope, a, b types.Any) {
	vRequires(c02Kind(a) != 0 && c02Kind(b) != 0)
	vEnsures("a = b exactly when b = a", EqDispatcher{}.Eq(scope, a, b) == EqDispatcher{}.Eq(scope, b, a))
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt protocols.EqDispatcher.Eq
func C02_null(lt LtDispatcher, gt GtDispatcher, eq EqDispatcher, scope types.Scope, a, b types.Any) {
	vRequires(sIsNull(a) && c02Kind(b) != 0)
	vEnsures("NULL is not less", !lt.Lt(scope, a, b))
	vEnsures("NULL is not greater", !gt.Gt(scope, a, b))
	vEnsures("nothing is less than NULL", !LtDispatcher{}.Lt(scope, b, a))
	vEnsures("nothing is greater than NULL", !GtDispatcher{}.Gt(scope, b, a))
	vEnsures("NULL equals exactly NULL", eq.Eq(scope, a, b) == sIsNull(b))
	vEnsures("exactly NULL equals NULL", EqDispatcher{}.Eq(scope, b, a) == sIsNull(b))
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.intLt utils.ToFloat utils.ToInt64
func C02_numbers_lt(lt LtDispatcher, scope types.Scope, a, b types.Any) {
	x, y := sNumOf(a), sNumOf(b)
	vRequires(x.ok && y.ok)
	if x.isF || y.isF {
		vCover("float")
		vEnsures("< on doubles", lt.Lt(scope, a, b) == (x.f < y.f))
		return
	}
	vCover("int")
	vEnsures("< on integers", lt.Lt(scope, a, b) == (x.i < y.i))
}

// @contract: C02
// @covers: protocols.GtDispatcher.Gt protocols.intGt utils.ToFloat utils.ToInt64
func C02_numbers_gt(gt GtDispatcher, scope types.Scope, a, b types.Any) {
	x, y := sNumOf(a), sNumOf(b)
	vRequires(x.ok && y.ok)
	if x.isF || y.isF {
		vCover("float")
		vEnsures("> on doubles", gt.Gt(scope, a, b) == (x.f > y.f))
		return
	}
	vCover("int")
	vEnsures("> on integers", gt.Gt(scope, a, b) == (x.i > y.i))
}

// @contract: C02
// @covers: protocols.EqDispatcher.Eq protocols.intEq utils.ToFloat utils.ToInt64
func C02_numbers_eq(eq EqDispatcher, scope types.Scope, a, b types.Any) {
	x, y := sNumOf(a), sNumOf(b)
	vRequires(x.ok && y.ok)
	if x.isF || y.isF {
		vCover("float")
		vEnsures("= on doubles", eq.Eq(scope, a, b) == (x.f == y.f))
		return
	}
	vCover("int")
	vEnsures("= on integers", eq.Eq(scope, a, b) == (x.i == y.i))
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt protocols.EqDispatcher.Eq
func C02_strings(lt LtDispatcher, gt GtDispatcher, eq EqDispatcher, scope types.Scope, a, b string) {
	vEnsures("< on strings", lt.Lt(scope, a, b) == (a < b))
	vEnsures("> on strings", gt.Gt(scope, a, b) == (a > b))
	vEnsures("= on strings", eq.Eq(scope, a, b) == (a == b))
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt
func C02_times(lt LtDispatcher, gt GtDispatcher, scope types.Scope, a, b time.Time) {
	vEnsures("< on times", lt.Lt(scope, a, b) == a.Before(b))
	vEnsures("> on times", gt.Gt(scope, a, b) == b.Before(a))
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt protocols.EqDispatcher.Eq
func C02_unrelated(scope types.Scope, a, b types.Any) {
	i, j := c02Kind(a), c02Kind(b)
	vRequires(i != 0 && j != 0 && i != j)
	vRequires(!(i == 2 && j == 4) && !(i == 4 && j == 2))
	vEnsures("unrelated kinds are never less", !LtDispatcher{}.Lt(scope, a, b))
	vEnsures("unrelated kinds are never greater", !GtDispatcher{}.Gt(scope, a, b))
	vEnsures("unrelated kinds are never equal", !EqDispatcher{}.Eq(scope, a, b))
}

// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt protocols.EqDispatcher.Eq
func C02_unrelated_lists(scope types.Scope, a []types.Any, b types.Any) {
	vRequires(c02Kind(b) > 1)
	vEnsures("a list is never less", !LtDispatcher{}.Lt(scope, a, b))
	vEnsures("a list is never greater", !GtDispatcher{}.Gt(scope, a, b))
	vEnsures("a list never equals a scalar", !EqDispatcher{}.Eq(scope, a, b))
	vEnsures("never less than a list", !LtDispatcher{}.Lt(scope, b, a))
	vEnsures("never greater than a list", !GtDispatcher{}.Gt(scope, b, a))
	vEnsures("a scalar never equals a list", !EqDispatcher{}.Eq(scope, b, a))
}

// @contract: C02
// @covers: protocols.EqDispatcher.Eq protocols._ArrayEq
func C02_lists(eq EqDispatcher, scope types.Scope, a, b []types.Any) {
	vLoopInv(func(i int) bool {
		return i <= len(a) && vForall(i, func(k int) bool { return scope.Eq(a[k], b[k]) })
	})
	got := eq.Eq(scope, a, b)
	if len(a) != len(b) {
		vCover("different length")
		vEnsures("lists of different length differ", !got)
		return
	}
	vCover("same length")
	vEnsures("lists are equal exactly when their members are, in order", got == vForall(len(a), func(k int) bool { return scope.Eq(a[k], b[k]) }))
}

// @contract: C02
// @covers: protocols._DictEq.Eq protocols._DictEq.Applicable protocols.to_dict
func C02_dicts(scope types.Scope, a, b *ordereddict.Dict) {
	vRequires(a != nil && b != nil)
	keys := a.Keys()
	same := func(k int) bool {
		x, _ := a.Get(keys[k])
		y, ok := b.Get(keys[k])
		return ok && scope.Eq(x, y)
	}
	vLoopInv(func(i int) bool { return vForall(i, same) })
	vEnsures("applies to dicts", _DictEq{}.Applicable(a, b))
	got := _DictEq{}.Eq(scope, a, b)
	if a.Len() != b.Len() {
		vCover("different size")
		vEnsures("dicts with a different number of keys differ", !got)
		return
	}
	vCover("same size")
	vEnsures("dicts are equal exactly when the values under every key are", got == vForall(len(keys), same))
}

// Operands that are expressions compare like their values.
//
// @contract: C02
// @covers: protocols.LtDispatcher.Lt protocols.GtDispatcher.Gt protocols.EqDispatcher.Eq protocols.maybeReduce
func C02_expressions(scope types.Scope, a types.LazyExpr, b types.Any) {
	v := a.Reduce(context.Background())
	vRequires(c02Kind(v) != 0 && c02Kind(b) != 0)
	vEnsures("<, left", LtDispatcher{}.Lt(scope, a, b) == LtDispatcher{}.Lt(scope, v, b))
	vEnsures("<, right", LtDispatcher{}.Lt(scope, b, a) == LtDispatcher{}.Lt(scope, b, v))
	vEnsures(">, left", GtDispatcher{}.Gt(scope, a, b) == GtDispatcher{}.Gt(scope, v, b))
	vEnsures(">, right", GtDispatcher{}.Gt(scope, b, a) == GtDispatcher{}.Gt(scope, b, v))
	vEnsures("=, left", EqDispatcher{}.Eq(scope, a, b) == EqDispatcher{}.Eq(scope, v, b))
	vEnsures("=, right", EqDispatcher{}.Eq(scope, b, a) == EqDispatcher{}.Eq(scope, b, v))
}
