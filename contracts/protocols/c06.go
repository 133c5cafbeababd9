package protocols

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C06: the newest applicable extension decides, the others are not asked.

// sHost: a host value no built-in rule knows about.
type sHost struct{ X int }

// @contract: C06
// @covers: protocols.AddDispatcher.Add
func C06_Add_newest(self AddDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", vSame(self.Add(scope, a, b), self.impl[k].Add(scope, a, b)))
}

// @contract: C06
// @covers: protocols.AddDispatcher.Add
func C06_Add_none(self AddDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", sIsNull(self.Add(scope, a, b)))
}

// @contract: C06
// @covers: protocols.AddDispatcher.AddImpl
func C06_Add_register(d AddDispatcher, x, y AddProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.AddDispatcher.Copy protocols.AddDispatcher.AddImpl
func C06_Add_copy(d AddDispatcher, x, y AddProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]AddProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.SubDispatcher.Sub
func C06_Sub_newest(self SubDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", vSame(self.Sub(scope, a, b), self.impl[k].Sub(scope, a, b)))
}

// @contract: C06
// @covers: protocols.SubDispatcher.Sub
func C06_Sub_none(self SubDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", sIsNull(self.Sub(scope, a, b)))
}

// @contract: C06
// @covers: protocols.SubDispatcher.AddImpl
func C06_Sub_register(d SubDispatcher, x, y SubProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.SubDispatcher.Copy protocols.SubDispatcher.AddImpl
func C06_Sub_copy(d SubDispatcher, x, y SubProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]SubProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.MulDispatcher.Mul
func C06_Mul_newest(self MulDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", vSame(self.Mul(scope, a, b), self.impl[k].Mul(scope, a, b)))
}

// @contract: C06
// @covers: protocols.MulDispatcher.Mul
func C06_Mul_none(self MulDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", sIsNull(self.Mul(scope, a, b)))
}

// @contract: C06
// @covers: protocols.MulDispatcher.AddImpl
func C06_Mul_register(d MulDispatcher, x, y MulProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.MulDispatcher.Copy protocols.MulDispatcher.AddImpl
func C06_Mul_copy(d MulDispatcher, x, y MulProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]MulProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.DivDispatcher.Div
func C06_Div_newest(self DivDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", vSame(self.Div(scope, a, b), self.impl[k].Div(scope, a, b)))
}

// @contract: C06
// @covers: protocols.DivDispatcher.Div
func C06_Div_none(self DivDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", sIsNull(self.Div(scope, a, b)))
}

// @contract: C06
// @covers: protocols.DivDispatcher.AddImpl
func C06_Div_register(d DivDispatcher, x, y DivProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.DivDispatcher.Copy protocols.DivDispatcher.AddImpl
func C06_Div_copy(d DivDispatcher, x, y DivProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]DivProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.EqDispatcher.Eq
func C06_Eq_newest(self EqDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", self.Eq(scope, a, b) == self.impl[k].Eq(scope, a, b))
}

// @contract: C06
// @covers: protocols.EqDispatcher.Eq
func C06_Eq_none(self EqDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", !self.Eq(scope, a, b))
}

// @contract: C06
// @covers: protocols.EqDispatcher.AddImpl
func C06_Eq_register(d EqDispatcher, x, y EqProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.EqDispatcher.Copy protocols.EqDispatcher.AddImpl
func C06_Eq_copy(d EqDispatcher, x, y EqProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]EqProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.LtDispatcher.Lt
func C06_Lt_newest(self LtDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", self.Lt(scope, a, b) == self.impl[k].Lt(scope, a, b))
}

// @contract: C06
// @covers: protocols.LtDispatcher.Lt
func C06_Lt_none(self LtDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", !self.Lt(scope, a, b))
}

// @contract: C06
// @covers: protocols.LtDispatcher.AddImpl
func C06_Lt_register(d LtDispatcher, x, y LtProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.LtDispatcher.Copy protocols.LtDispatcher.AddImpl
func C06_Lt_copy(d LtDispatcher, x, y LtProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]LtProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.GtDispatcher.Gt
func C06_Gt_newest(self GtDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", self.Gt(scope, a, b) == self.impl[k].Gt(scope, a, b))
}

// @contract: C06
// @covers: protocols.GtDispatcher.Gt
func C06_Gt_none(self GtDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", !self.Gt(scope, a, b))
}

// @contract: C06
// @covers: protocols.GtDispatcher.AddImpl
func C06_Gt_register(d GtDispatcher, x, y GtProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.GtDispatcher.Copy protocols.GtDispatcher.AddImpl
func C06_Gt_copy(d GtDispatcher, x, y GtProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]GtProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.MembershipDispatcher.Membership
func C06_Membership_newest(self MembershipDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", self.Membership(scope, a, b) == self.impl[k].Membership(scope, a, b))
}

// @contract: C06
// @covers: protocols.MembershipDispatcher.Membership
func C06_Membership_none(self MembershipDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", !self.Membership(scope, a, b))
}

// @contract: C06
// @covers: protocols.MembershipDispatcher.AddImpl
func C06_Membership_register(d MembershipDispatcher, x, y MembershipProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.MembershipDispatcher.Copy protocols.MembershipDispatcher.AddImpl
func C06_Membership_copy(d MembershipDispatcher, x, y MembershipProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]MembershipProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.RegexDispatcher.Match
func C06_Regex_newest(self RegexDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	vEnsures("the newest applicable extension decides", self.Match(scope, a, b) == self.impl[k].Match(scope, a, b))
}

// @contract: C06
// @covers: protocols.RegexDispatcher.Match
func C06_Regex_none(self RegexDispatcher, scope types.Scope, x, y sHost) {
	a, b := types.Any(x), types.Any(y)
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil && !self.impl[j].Applicable(a, b) }))
	vEnsures("without an applicable extension there is no result", !self.Match(scope, a, b))
}

// @contract: C06
// @covers: protocols.RegexDispatcher.AddImpl
func C06_Regex_register(d RegexDispatcher, x, y RegexProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.RegexDispatcher.Copy protocols.RegexDispatcher.AddImpl
func C06_Regex_copy(d RegexDispatcher, x, y RegexProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]RegexProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.AssociativeDispatcher.Associative
func C06_Associative_newest(self AssociativeDispatcher, scope types.Scope, x, y sHost, k int) {
	a, b := types.Any(x), types.Any(y)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a, b) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a, b) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a, b) }) })
	got, pres := (&self).Associative(scope, a, b)
	want, wpres := self.impl[k].Associative(scope, a, b)
	vEnsures("the newest applicable extension decides", vSame(got, want) && pres == wpres)
}

// @contract: C06
// @covers: protocols.AssociativeDispatcher.AddImpl
func C06_Associative_register(d AssociativeDispatcher, x, y AssociativeProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.AssociativeDispatcher.Copy protocols.AssociativeDispatcher.AddImpl
func C06_Associative_copy(d AssociativeDispatcher, x, y AssociativeProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]AssociativeProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.BoolDispatcher.Bool
func C06_Bool_newest(self BoolDispatcher, ctx context.Context, scope types.Scope, x sHost, k int) {
	a := types.Any(x)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a) }) })
	vEnsures("the newest applicable extension decides", self.Bool(ctx, scope, a) == self.impl[k].Bool(ctx, scope, a))
}

// @contract: C06
// @covers: protocols.IterateDispatcher.Iterate
// @norac
func C06_Iterate_newest(self IterateDispatcher, ctx context.Context, scope types.Scope, x sHost, k int) {
	a := types.Any(x)
	vRequires(scope.GetStats() != nil && k >= 0 && k < len(self.impl))
	vRequires(vForall(len(self.impl), func(j int) bool { return self.impl[j] != nil }))
	vRequires(self.impl[k].Applicable(a) && vForall(k, func(j int) bool { return !self.impl[j].Applicable(a) }))
	vLoopInv(func(i int) bool { return vForall(i, func(j int) bool { return !self.impl[j].Applicable(a) }) })
	vEnsures("the newest applicable extension decides", self.Iterate(ctx, scope, a) == self.impl[k].Iterate(ctx, scope, a))
}

// @contract: C06
// @covers: protocols.BoolDispatcher.AddImpl
func C06_Bool_register(d BoolDispatcher, x, y BoolProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.BoolDispatcher.Copy protocols.BoolDispatcher.AddImpl
func C06_Bool_copy(d BoolDispatcher, x, y BoolProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]BoolProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

// @contract: C06
// @covers: protocols.IterateDispatcher.AddImpl
func C06_Iterate_register(d IterateDispatcher, x, y IterateProtocol) {
	old := d.impl
	n := len(old)
	vRequires(n < 1000000)
	d.AddImpl(x, y)
	vEnsures("two more", len(d.impl) == n+2)
	vEnsures("the newest first", vSame(d.impl[0], y) && vSame(d.impl[1], x))
	vEnsures("older ones keep their order", vForall(n, func(k int) bool { return vSame(d.impl[k+2], old[k]) }))
}

// @contract: C06
// @covers: protocols.IterateDispatcher.Copy protocols.IterateDispatcher.AddImpl
func C06_Iterate_copy(d IterateDispatcher, x, y IterateProtocol) {
	n := len(d.impl)
	vRequires(n < 1000000)
	keep := append([]IterateProtocol{}, d.impl...)
	c := d.Copy()
	d.AddImpl(x)
	vEnsures("the copy has what there was", len(c.impl) == n && vForall(n, func(k int) bool { return vSame(c.impl[k], keep[k]) }))
	c.AddImpl(y)
	vEnsures("the original is untouched by the copy", len(d.impl) == n+1 && vSame(d.impl[0], x) && vForall(n, func(k int) bool { return vSame(d.impl[k+1], keep[k]) }))
	vEnsures("the copy gets its own", len(c.impl) == n+1 && vSame(c.impl[0], y) && vForall(n, func(k int) bool { return vSame(c.impl[k+1], keep[k]) }))
}

