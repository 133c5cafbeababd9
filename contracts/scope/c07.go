package scope

import (
	"www.velocidex.com/golang/vfilter/types"
)

// C07, C09: the binding stack. The lookup inside one binding set is the
// associative dispatcher (C04).

func cOK(s *Scope) bool { return s != nil && s.dispatcher != nil && s.stack_depth >= 0 }

// @contract: C07
// @covers: scope.Scope.Resolve scope.Scope._ResolveVars
// @opaque: scope.Scope.Associative
func C07_innermost(s *Scope, field string, k int) {
	vRequires(cOK(s) && s.stack_depth < 1000 && k >= 0 && k < len(s.vars))
	has := func(i int) bool { _, ok := s.Associative(s.vars[i], field); return ok }
	vRequires(has(k))
	vRequires(vForall(len(s.vars), func(i int) bool { return i <= k || !has(i) }))
	vLoopInv(func(i int) bool { return i >= k })
	want, _ := s.Associative(s.vars[k], field)
	got, pres := s.Resolve(field)
	vEnsures("present", pres)
	if want == nil {
		vCover("nil")
		_, isNull := got.(types.Null)
		vEnsures("nil is bound as NULL", isNull)
	} else {
		vEnsures("the innermost binding", vSame(got, want))
	}
}

// @contract: C07
// @covers: scope.Scope.Resolve scope.Scope._ResolveVars
// @opaque: scope.Scope.Associative
func C07_absent(s *Scope, field string) {
	vRequires(cOK(s) && s.stack_depth < 1000)
	vRequires(vForall(len(s.vars), func(i int) bool { v, ok := s.Associative(s.vars[i], field); return !ok && v == nil }))
	vLoopInv(func(default_value types.Any) bool { return default_value == nil })
	got, pres := s.Resolve(field)
	vEnsures("absent", !pres && got == nil)
}

// @contract: C07
// @covers: scope.Scope.Resolve scope.Scope._ResolveVars
// @opaque: scope.Scope.Associative
func C07_default(s *Scope, field string, k int) {
	vRequires(cOK(s) && s.stack_depth < 1000 && k >= 0 && k < len(s.vars))
	def := func(i int) types.Any { v, _ := s.Associative(s.vars[i], field); return v }
	vRequires(vForall(len(s.vars), func(i int) bool { _, ok := s.Associative(s.vars[i], field); return !ok }))
	vRequires(def(k) != nil)
	vRequires(vForall(len(s.vars), func(i int) bool { return i <= k || def(i) == nil }))
	vLoopInv(func(i int, default_value types.Any) bool {
		return i >= k && default_value == nil || i < k && vSame(default_value, def(k))
	})
	got, pres := s.Resolve(field)
	vEnsures("the innermost default", pres && vSame(got, def(k)))
}

// @contract: C07
// @covers: scope.Scope.Copy scope.Scope.AppendVars
func C07_copy(s *Scope, x, y types.Row) {
	vRequires(cOK(s) && len(s.vars) < 1000000 && len(s.children) < 1000)
	vRequires(vForall(len(s.children), func(i int) bool { return s.children[i] == nil || s.children[i] != s }))
	n := len(s.vars)
	keep := append([]types.Row{}, s.vars...)
	c := s.Copy().(*Scope)
	vEnsures("a copy sees the same bindings", len(c.vars) == n && vForall(n, func(i int) bool { return vSame(c.vars[i], keep[i]) }))
	s.AppendVars(x)
	vEnsures("bindings added to the original stay there", len(c.vars) == n && vForall(n, func(i int) bool { return vSame(c.vars[i], keep[i]) }))
	c.AppendVars(y)
	vEnsures("bindings added to the copy stay there", len(s.vars) == n+1 && vSame(s.vars[n], x) && vForall(n, func(i int) bool { return vSame(s.vars[i], keep[i]) }))
	vEnsures("the copy has its own", len(c.vars) == n+1 && vSame(c.vars[n], y) && vForall(n, func(i int) bool { return vSame(c.vars[i], keep[i]) }))
}

// Two copies of one scope.
// @contract: C07
// @covers: scope.Scope.Copy scope.Scope.AppendVars
func C07_siblings(s *Scope, x, y types.Row) {
	vRequires(cOK(s) && len(s.vars) < 1000000 && len(s.children) < 1000)
	n := len(s.vars)
	keep := append([]types.Row{}, s.vars...)
	c := s.Copy().(*Scope)
	d := s.Copy().(*Scope)
	c.AppendVars(x)
	d.AppendVars(y)
	vEnsures("first", len(c.vars) == n+1 && vSame(c.vars[n], x) && vForall(n, func(i int) bool { return vSame(c.vars[i], keep[i]) }))
	vEnsures("second", len(d.vars) == n+1 && vSame(d.vars[n], y) && vForall(n, func(i int) bool { return vSame(d.vars[i], keep[i]) }))
	vEnsures("original", len(s.vars) == n && vForall(n, func(i int) bool { return vSame(s.vars[i], keep[i]) }))
}

// @contract: C07
// @covers: scope.Scope.AppendVars
func C07_append(s *Scope, x types.Row) {
	vRequires(cOK(s) && len(s.vars) < 1000000)
	n := len(s.vars)
	keep := append([]types.Row{}, s.vars...)
	s.AppendVars(x)
	vEnsures("one more binding set, the others unchanged", len(s.vars) == n+1 && vSame(s.vars[n], x) && vForall(n, func(i int) bool { return vSame(s.vars[i], keep[i]) }))
}

// @contract: C09
// @covers: scope.Scope.Copy scope.Scope.AppendVars scope.Scope.StackDepth
func C09_depth(s *Scope, x types.Row) {
	vRequires(cOK(s) && s.stack_depth < 1000000 && len(s.vars) < 1000000 && len(s.children) < 1000)
	d := s.StackDepth()
	c := s.Copy().(*Scope)
	vEnsures("one deeper", c.StackDepth() == d+1)
	c.AppendVars(x)
	s.AppendVars(x)
	vEnsures("bindings do not count", c.StackDepth() == d+1 && s.StackDepth() == d)
}

// @contract: C09
// @covers: scope.Scope.CheckForOverflow
// @opaque: scope.Scope.Associative scope.protocolDispatcher.Log
func C09_limit(s *Scope) {
	vRequires(cOK(s))
	vEnsures("overflow exactly from depth 1000 on", s.CheckForOverflow() == (s.StackDepth() >= 1000))
}

// @contract: C09
// @covers: scope.Scope.Resolve
// @opaque: scope.Scope.Associative scope.protocolDispatcher.Log
func C09_resolve(s *Scope, field string) {
	vRequires(cOK(s) && s.stack_depth >= 1000)
	_, pres := s.Resolve(field)
	vEnsures("beyond the limit nothing resolves", !pres)
}

// C12: the aggregator context of a scope is its own, or the nearest one above.
// @contract: C12
// @covers: scope.Scope.GetAggregatorCtx scope.Scope.SetAggregatorCtx scope.Scope.Copy
// @maxrec: 4
func C12_context(a types.AggregatorCtx) {
	vRequires(a != nil)
	s := NewScope()
	c := s.Copy()
	cc := c.Copy()
	top := s.GetAggregatorCtx()
	vEnsures("derived scopes share it", vSame(c.GetAggregatorCtx(), top) && vSame(cc.GetAggregatorCtx(), top))
	c.SetAggregatorCtx(a)
	vEnsures("set", vSame(c.GetAggregatorCtx(), a))
	vEnsures("for scopes derived from it", vSame(cc.GetAggregatorCtx(), a))
	vEnsures("and only those", vSame(s.GetAggregatorCtx(), top))
}
