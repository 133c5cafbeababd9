package protocols

import (
	"context"
	"strings"

	"www.velocidex.com/golang/vfilter/types"
)

// C01: arithmetic. Operands range over every value; host types that only
// resemble numbers (pointers to numbers, uint, float32) are left out.

func c01Operand(x types.Any) bool {
	return !sIsLazy(x) && !sNumericCast(x)
}

// Integer pair -> wrapping int64, float on either side -> float64.
func c01Sub(a, b types.Any) (types.Any, bool) {
	x, y := sNumOf(a), sNumOf(b)
	if !x.ok || !y.ok {
		return nil, false
	}
	if x.isF || y.isF {
		return x.f - y.f, true
	}
	return x.i - y.i, true
}

func c01Mul(a, b types.Any) (types.Any, bool) {
	x, y := sNumOf(a), sNumOf(b)
	if !x.ok || !y.ok {
		return nil, false
	}
	if x.isF || y.isF {
		return x.f * y.f, true
	}
	return x.i * y.i, true
}

// @contract: C01
// @covers: protocols.SubDispatcher.Sub utils.ToInt64 utils.ToFloat
func C01_Sub_numbers(self SubDispatcher, scope types.Scope, a, b types.Any) {
	want, ok := c01Sub(a, b)
	vRequires(ok)
	vEnsures("difference follows the operand table", vSame(self.Sub(scope, a, b), want))
}

// @contract: C01
// @covers: protocols.SubDispatcher.Sub
func C01_Sub_null(self SubDispatcher, scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	vRequires(sIsNull(a) || sIsNull(b))
	vEnsures("NULL absorbs subtraction", sIsNull(self.Sub(scope, a, b)))
}

// @contract: C01
// @covers: protocols.SubDispatcher.Sub
func C01_Sub_otherwise(scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	_, ok := c01Sub(a, b)
	vRequires(!ok)
	vEnsures("no rule gives NULL", sIsNull(SubDispatcher{}.Sub(scope, a, b)))
}

// @contract: C01
// @covers: protocols.MulDispatcher.Mul utils.ToInt64 utils.ToFloat
func C01_Mul_numbers(self MulDispatcher, scope types.Scope, a, b types.Any) {
	want, ok := c01Mul(a, b)
	vRequires(ok)
	vEnsures("product follows the operand table", vSame(self.Mul(scope, a, b), want))
}

// @contract: C01
// @covers: protocols.MulDispatcher.Mul
func C01_Mul_string(self MulDispatcher, scope types.Scope, a string, b types.Any) {
	n := sNumOf(b)
	vRequires(n.ok)
	got := self.Mul(scope, a, b)
	if n.i < 0 || len(a) > 0 && n.i > 100000000/int64(len(a)) {
		vCover("refused")
		vEnsures("a negative or oversized repetition is refused with NULL", sIsNull(got))
		return
	}
	vCover("built")
	s, ok := got.(string)
	vEnsures("repetition gives a string", ok)
	vEnsures("repetition of the string", s == strings.Repeat(a, int(n.i)))
	vEnsures("size limit", len(s) <= 100000000)
}

// @contract: C01
// @covers: protocols.MulDispatcher.Mul
func C01_Mul_null(self MulDispatcher, scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	vRequires(sIsNull(a) || sIsNull(b))
	vEnsures("NULL absorbs multiplication", sIsNull(self.Mul(scope, a, b)))
}

// @contract: C01
// @covers: protocols.MulDispatcher.Mul
func C01_Mul_otherwise(scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	_, ok := c01Mul(a, b)
	vRequires(!ok)
	vRequires(!sIsStr(a) || !sNumOf(b).ok)
	vEnsures("no rule gives NULL", sIsNull(MulDispatcher{}.Mul(scope, a, b)))
}

// @contract: C01
// @covers: protocols.DivDispatcher.Div utils.ToFloat
func C01_Div_numbers(self DivDispatcher, scope types.Scope, a, b types.Any) {
	x, y := sNumOf(a), sNumOf(b)
	vRequires(x.ok && y.ok)
	got := self.Div(scope, a, b)
	if y.f == 0 {
		vCover("zero divisor")
		vEnsures("a zero divisor gives NULL", sIsNull(got))
		return
	}
	vCover("quotient")
	vEnsures("quotient of doubles", vSame(got, x.f/y.f))
}

// @contract: C01
// @covers: protocols.DivDispatcher.Div
func C01_Div_otherwise(scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	vRequires(!sNumOf(a).ok || !sNumOf(b).ok)
	vEnsures("no rule gives NULL", sIsNull(DivDispatcher{}.Div(scope, a, b)))
}

// @contract: C01
// @covers: protocols.DivDispatcher.Div
func C01_Div_null(self DivDispatcher, scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	vRequires(sIsNull(a) || sIsNull(b))
	vEnsures("NULL absorbs division", sIsNull(self.Div(scope, a, b)))
}

// Addition of booleans is only defined next to a float.
func c01Add(a, b types.Any) (types.Any, bool) {
	x, y := sNumOf(a), sNumOf(b)
	if !x.ok || !y.ok {
		return nil, false
	}
	if x.isF {
		return x.f + y.f, true
	}
	if sIsBool(a) || sIsBool(b) {
		return nil, false
	}
	if y.isF {
		return x.f + y.f, true
	}
	return x.i + y.i, true
}

// @contract: C01
// @covers: protocols.AddDispatcher.Add protocols.intAdd utils.ToInt64 utils.ToFloat
func C01_Add_numbers(self AddDispatcher, scope types.Scope, a, b types.Any) {
	want, ok := c01Add(a, b)
	vRequires(ok)
	vEnsures("sum follows the operand table", vSame(self.Add(scope, a, b), want))
}

// @contract: C01
// @covers: protocols.AddDispatcher.Add
func C01_Add_strings(self AddDispatcher, scope types.Scope, a, b string) {
	got := self.Add(scope, a, b)
	if len(a)+len(b) > 100000000 {
		vCover("refused")
		vEnsures("an oversized concatenation is refused with NULL", sIsNull(got))
		return
	}
	vCover("built")
	s, ok := got.(string)
	vEnsures("concatenation gives a string", ok)
	vEnsures("concatenation", s == a+b)
}

// @contract: C01
// @covers: protocols.AddDispatcher.Add
func C01_Add_null(scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	vRequires(sIsNull(a) || sIsNull(b) && !is_array(a))
	vEnsures("NULL absorbs addition", sIsNull(AddDispatcher{}.Add(scope, a, b)))
}

// @contract: C01
// @covers: protocols.AddDispatcher.Add
func C01_Add_otherwise(scope types.Scope, a, b types.Any) {
	vRequires(c01Operand(a) && c01Operand(b))
	_, ok := c01Add(a, b)
	vRequires(!ok)
	vRequires(!(sIsStr(a) && sIsStr(b)))
	vRequires(!is_array(a) && !is_array(b))
	vEnsures("no rule gives NULL", sIsNull(AddDispatcher{}.Add(scope, a, b)))
}

// @contract: C01
// @covers: protocols.AddDispatcher.Add protocols.convertToSlice
func C01_Add_lists(scope types.Scope, a, b []types.Any) {
	vLoopInv(func(r []types.Any) bool {
		return len(r) <= len(a) && vForall(len(r), func(k int) bool { return vSame(r[k], a[k]) })
	})
	vLoopInv(func(r []types.Any) bool {
		return len(r) <= len(b) && vForall(len(r), func(k int) bool { return vSame(r[k], b[k]) })
	})
	got, ok := sList(AddDispatcher{}.Add(scope, a, b))
	vEnsures("a list", ok)
	vEnsures("length adds up", len(got) == len(a)+len(b))
	vEnsures("left members first", vForall(len(a), func(k int) bool { return vSame(got[k], a[k]) }))
	vEnsures("right members last", vForall(len(b), func(k int) bool { return vSame(got[len(a)+k], b[k]) }))
}

// @contract: C01
// @covers: protocols.AddDispatcher.Add protocols.convertToSlice
func C01_Add_fresh(scope types.Scope, a, b, c []types.Any) {
	a0 := append([]types.Any(nil), a...)
	b0 := append([]types.Any(nil), b...)
	x, ok1 := sList(AddDispatcher{}.Add(scope, a, b))
	vEnsures("operands are not modified (left)", vForall(len(a), func(k int) bool { return vSame(a[k], a0[k]) }))
	vEnsures("operands are not modified (right)", vForall(len(b), func(k int) bool { return vSame(b[k], b0[k]) }))
	x0 := append([]types.Any(nil), x...)
	_, ok2 := sList(AddDispatcher{}.Add(scope, a, c))
	vEnsures("lists", ok1 && ok2)
	vEnsures("a later concatenation leaves an earlier result alone", vForall(len(x0), func(k int) bool { return vSame(x[k], x0[k]) }))
	vEnsures("operands are not modified (again)", vForall(len(a0), func(k int) bool { return vSame(a[k], a0[k]) }))
}

// Operands that are expressions are computed with like their values.
//
// @contract: C01
// @covers: protocols.AddDispatcher.Add protocols.SubDispatcher.Sub protocols.MulDispatcher.Mul protocols.DivDispatcher.Div protocols.maybeReduce
func C01_expressions(scope types.Scope, a types.LazyExpr, b types.Any) {
	v := a.Reduce(context.Background())
	vRequires(sNumOf(v).ok && sNumOf(b).ok)
	vEnsures("+, left", c01Same(AddDispatcher{}.Add(scope, a, b), AddDispatcher{}.Add(scope, v, b)))
	vEnsures("+, right", c01Same(AddDispatcher{}.Add(scope, b, a), AddDispatcher{}.Add(scope, b, v)))
	vEnsures("-, left", c01Same(SubDispatcher{}.Sub(scope, a, b), SubDispatcher{}.Sub(scope, v, b)))
	vEnsures("-, right", c01Same(SubDispatcher{}.Sub(scope, b, a), SubDispatcher{}.Sub(scope, b, v)))
	vEnsures("*, left", c01Same(MulDispatcher{}.Mul(scope, a, b), MulDispatcher{}.Mul(scope, v, b)))
	vEnsures("*, right", c01Same(MulDispatcher{}.Mul(scope, b, a), MulDispatcher{}.Mul(scope, b, v)))
	vEnsures("/, left", c01Same(DivDispatcher{}.Div(scope, a, b), DivDispatcher{}.Div(scope, v, b)))
	vEnsures("/, right", c01Same(DivDispatcher{}.Div(scope, b, a), DivDispatcher{}.Div(scope, b, v)))
}

func c01Same(x, y types.Any) bool {
	return vOr(vSame(x, y), vAnd(sIsNull(x), sIsNull(y)))
}
