package scope

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C22: lock discipline. @guarded makes every read and write of the named
// fields (and, with [], of the elements of the slice in them) an obligation:
// the mutex of that very object is held by the current goroutine, or the
// object was made in this call. Taking a held mutex and releasing a free one
// are obligations as well.

// free: no lock of this scope is held.
func free(s *Scope) bool {
	return !vLockHeld(&s.Mutex) && !vLockHeld(&s.destructors.mu)
}

// @contract: C22
// @covers: scope.Scope.Copy scope.NextId
// @guarded: scope.Scope.Mutex=vars,children[],children_grabage_count,ag_context,enable_explainer scope._destructors.mu=fn,is_destroyed
// @norac
func C22_copy(s *Scope) {
	vRequires(cOK(s) && free(s))
	s.Copy()
	vEnsures("released", free(s))
}

// @contract: C22
// @covers: scope.Scope.AppendVars scope.Scope.NewScope scope.Scope.EnableExplain scope.Scope.Explainer scope.Scope.IsClosed scope.Scope.StackDepth
// @opaque: scope.protocolDispatcher.Copy scope.protocolDispatcher.Explainer
// @guarded: scope.Scope.Mutex=vars,children[],children_grabage_count,ag_context,enable_explainer scope._destructors.mu=fn,is_destroyed
// @norac
func C22_simple(s *Scope, row types.Row) {
	vRequires(cOK(s) && free(s))
	s.AppendVars(row)
	vEnsures("AppendVars releases", free(s))
	s.NewScope()
	vEnsures("NewScope releases", free(s))
	s.EnableExplain()
	vEnsures("EnableExplain releases", free(s))
	s.Explainer()
	vEnsures("Explainer releases", free(s))
	s.IsClosed()
	vEnsures("IsClosed releases", free(s))
	s.StackDepth()
	vEnsures("StackDepth releases", free(s))
}

// Bindings are looked up in a snapshot: what is called for them may use the
// scope.
//
// @contract: C22
// @covers: scope.Scope.Resolve scope.Scope._ResolveVars scope.Scope.CheckForOverflow
// @opaque: scope.Scope.Associative scope.Scope.Log
// @guarded: scope.Scope.Mutex=vars,children[],children_grabage_count,ag_context,enable_explainer scope._destructors.mu=fn,is_destroyed
// @norac
func C22_resolve(s *Scope, field string) {
	vRequires(cOK(s) && free(s))
	s.Resolve(field)
	vEnsures("released", free(s))
}

// @contract: C22
// @covers: scope.Scope.AddDestructor scope._destructors.AddDestructor scope._destructors.IsDestroyed
// @opaque: scope.Scope.Log
// @guarded: scope.Scope.Mutex=vars,children[],children_grabage_count,ag_context,enable_explainer scope._destructors.mu=fn[],is_destroyed
// @norac
func C22_destructor(s *Scope, f func()) {
	vRequires(cOK(s) && free(s))
	s.AddDestructor(f)
	vEnsures("released", free(s))
}

// Closing a scope without derived scopes: the destructors run with no lock
// held (they may use the scope); a nil destructor is its registrant's error.
//
// @contract: C22
// @covers: scope.Scope.Close scope._destructors.RemoveDestructors scope._destructors.SetDestroyed
// @nested: scope.Scope.Close
// @maypanic
// @guarded: scope.Scope.Mutex=vars,children[],children_grabage_count,ag_context,enable_explainer scope._destructors.mu=fn[],is_destroyed
// @norac
func C22_close(s *Scope) {
	vRequires(cOK(s) && free(s))
	p := s.parent
	vRequires(p == nil || p != s && free(p))
	vLoopInv(func() bool { return free(s) })
	vLoopInv(func() bool { return p == nil || !vLockHeld(&p.destructors.mu) })
	s.Close()
	vEnsures("released", free(s))
	vEnsures("the parent's as well", p == nil || free(p))
}

// @contract: C22
// @covers: scope.Scope.SetAggregatorCtx scope.Scope.GetAggregatorCtx
// @guarded: scope.Scope.Mutex=vars,children[],children_grabage_count,ag_context,enable_explainer scope._destructors.mu=fn[],is_destroyed
// @nested: scope.Scope.GetAggregatorCtx
// @norac
func C22_aggregates(s *Scope, c types.AggregatorCtx) {
	vRequires(cOK(s) && free(s))
	s.SetAggregatorCtx(c)
	vEnsures("SetAggregatorCtx releases", free(s))
	s.GetAggregatorCtx()
	vEnsures("GetAggregatorCtx releases", free(s))
}

var _ = context.Background

// The aggregates' state is modified in one step.
//
// @contract: C22
// @covers: scope.AggregatorCtx.Modify
// @guarded: scope.AggregatorCtx.mu=data[]
// @norac
func C22_modify(c *AggregatorCtx, name string, f func(old types.Any, pres bool) types.Any) {
	vRequires(c != nil && c.data != nil && f != nil && !vLockHeld(&c.mu))
	c.Modify(name, f)
	vEnsures("released", !vLockHeld(&c.mu))
}

// What all scopes of an environment share and may replace at any time.
//
// @contract: C22
// @covers: scope.protocolDispatcher.SetExplainer scope.protocolDispatcher.Explainer scope.protocolDispatcher.GetLogger scope.protocolDispatcher.Log scope.protocolDispatcher.SetSorter scope.protocolDispatcher.SetGrouper scope.protocolDispatcher.SetMaterializer
// @guarded: scope.protocolDispatcher.Mutex=explainer,Logger,Sorter,Grouper,Materializer
// @norac
func C22_dispatcher(d *protocolDispatcher, e types.Explainer, so types.Sorter, g types.Grouper, m types.ScopeMaterializer, text string) {
	held := func() bool { return vLockHeld(&d.Mutex) }
	vRequires(d != nil && !held())
	d.SetExplainer(e)
	vEnsures("SetExplainer releases", !held())
	d.Explainer()
	vEnsures("Explainer releases", !held())
	d.GetLogger()
	vEnsures("GetLogger releases", !held())
	d.Log(text)
	vEnsures("Log releases", !held())
	d.SetSorter(so)
	vEnsures("SetSorter releases", !held())
	d.SetGrouper(g)
	vEnsures("SetGrouper releases", !held())
	d.SetMaterializer(m)
	vEnsures("SetMaterializer releases", !held())
}
