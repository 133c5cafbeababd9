package scope

// C08: destructors. Calls of destructors and of the derived scopes' Close are
// recorded in the ghost trace.

// @contract: C08
// @covers: scope.Scope.Close scope._destructors.RemoveDestructors scope._destructors.SetDestroyed
// @norac
func C08_own(s *Scope, p *Scope) {
	vRequires(cOK(s) && len(s.children) == 0 && s.parent == nil)
	fns := append([]func(){}, s.destructors.fn...)
	n := len(fns)
	vRequires(n < 1000000 && vForall(n, func(k int) bool { return fns[k] != nil }))
	n0 := vTraceLen()
	done := 0
	_ = done
	vLoopInv(func(i int) bool { return vTraceLen() == n0+n-1-i })
	vLoopInv(func(i int) bool { return vForall(n-1-i, func(k int) bool { return vTraceIsCall(n0+k, fns[n-1-k]) }) })
	s.Close()
	vEnsures("every destructor ran once", vTraceLen() == n0+n)
	vEnsures("newest first", vForall(n, func(k int) bool { return vTraceIsCall(n0+k, fns[n-1-k]) }))
	vEnsures("closed", s.IsClosed())
	s.Close()
	vEnsures("closing again runs nothing", vTraceLen() == n0+n)
}

// @contract: C08
// @covers: scope.Scope.Close
// @nested: scope.Scope.Close
// @norac
func C08_children(s *Scope) {
	vRequires(cOK(s) && s.parent == nil && len(s.destructors.fn) == 0)
	kids := append([]*Scope{}, s.children...)
	n := len(kids)
	vRequires(n < 1000000 && vForall(n, func(k int) bool { return kids[k] != nil }))
	n0 := vTraceLen()
	vLoopInv(func(i int) bool { return vTraceLen() == n0+i })
	vLoopInv(func(i int) bool { return vForall(i, func(k int) bool { return vTraceIs(n0+k, "scope.Scope.Close", kids[k]) }) })
	s.Close()
	vEnsures("every derived scope is closed once", vTraceLen() == n0+n)
	vEnsures("each of them", vForall(n, func(k int) bool { return vTraceIs(n0+k, "scope.Scope.Close", kids[k]) }))
	vEnsures("closed", s.IsClosed())
}

// The derived scopes come before the scope's own destructors.
// @contract: C08
// @covers: scope.Scope.Close
// @nested: scope.Scope.Close
// @norac
func C08_order(s *Scope, kid *Scope, f, g func()) {
	vRequires(cOK(s) && s.parent == nil && kid != nil && f != nil && g != nil)
	s.children = []*Scope{nil, kid, nil}
	s.destructors.fn = []func(){f, g}
	n0 := vTraceLen()
	s.Close()
	vEnsures("derived scope first, then newest destructor first", vTraceLen() == n0+3 &&
		vTraceIs(n0, "scope.Scope.Close", kid) && vTraceIsCall(n0+1, g) && vTraceIsCall(n0+2, f))
}

// A closed scope is forgotten by its parent, others are not.
// @contract: C08
// @covers: scope.Scope.Close
// @norac
func C08_leave(s *Scope) {
	vRequires(cOK(s))
	p := s.parent
	vRequires(p != nil && s != p && len(s.children) == 0 && len(s.destructors.fn) == 0)
	kids := append([]*Scope{}, p.children...)
	n := len(kids)
	vRequires(n < 1000000 && vForall(n, func(k int) bool { return kids[k] == nil || kids[k] == s || kids[k].id != s.id }))
	vLoopInv(func(i int) bool {
		return len(p.children) == n && vForall(i, func(k int) bool {
			return vOr(vAnd(kids[k] == s, p.children[k] == nil), vAnd(kids[k] != s, p.children[k] == kids[k]))
		})
	})
	vLoopInv(func(i int) bool {
		return vForall(n, func(k int) bool { return k < i || p.children[k] == kids[k] })
	})
	s.Close()
	vEnsures("the parent forgets it and keeps the others", len(p.children) == n && vForall(n, func(k int) bool {
		return vOr(vAnd(kids[k] == s, p.children[k] == nil), vAnd(kids[k] != s, p.children[k] == kids[k]))
	}))
}

// @contract: C08
// @covers: scope.Scope.AddDestructor scope._destructors.AddDestructor scope._destructors.IsDestroyed
// @opaque: scope.protocolDispatcher.Log
// @norac
func C08_register(s *Scope, f func()) {
	vRequires(cOK(s) && len(s.destructors.fn) < 1000000)
	old := append([]func(){}, s.destructors.fn...)
	n := len(old)
	closed := s.IsClosed()
	err := s.AddDestructor(f)
	if closed {
		vCover("closed")
		vEnsures("refused with an error", err != nil && len(s.destructors.fn) == n)
	} else {
		vCover("open")
		vEnsures("accepted", err == nil && len(s.destructors.fn) == n+1)
	}
}

// @contract: C08
// @covers: scope.Scope.Copy
func C08_derive(s *Scope) {
	vRequires(cOK(s) && len(s.children) < 1000)
	vRequires(vForall(len(s.children), func(k int) bool { return s.children[k] != nil }))
	kids := append([]*Scope{}, s.children...)
	n := len(kids)
	vLoopInv(func(i int, new_children []*Scope) bool {
		return len(new_children) == i && vForall(i, func(k int) bool { return new_children[k] == kids[k] })
	})
	c := s.Copy().(*Scope)
	vEnsures("the original knows the copy and all earlier ones", len(s.children) == n+1 && s.children[n] == c && vForall(n, func(k int) bool { return s.children[k] == kids[k] }))
	vEnsures("the copy knows the original", c.parent == s)
	vEnsures("nothing to clean up yet", len(c.destructors.fn) == 0 && !c.IsClosed() && len(c.children) == 0)
}
