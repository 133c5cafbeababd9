package protocols

import (
	"regexp"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C05: membership and pattern matching.

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_null(self MembershipDispatcher, scope types.Scope, a, b types.Any) {
	vRequires(sIsNull(b) && !sIsLazy(a))
	vEnsures("nothing is a member of NULL", !self.Membership(scope, a, b))
}

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_key(self MembershipDispatcher, scope types.Scope, a string, b *ordereddict.Dict) {
	vRequires(b != nil)
	_, has := b.Get(a)
	vEnsures("a string is in a dict when it is a key", self.Membership(scope, a, b) == has)
}

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_substring(self MembershipDispatcher, scope types.Scope, a, b string) {
	vEnsures("a string is in a string when contained", self.Membership(scope, a, b) == strings.Contains(b, a))
}

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_member(scope types.Scope, a types.Any, b []types.Any) {
	vRequires(!sIsLazy(a) && b != nil)
	vLoopInv(func(i int) bool { return vForall(i, func(k int) bool { return !scope.Eq(a, b[k]) }) })
	got := MembershipDispatcher{}.Membership(scope, a, b)
	vEnsures("a value is in a list when equal to a member", got == vExists(len(b), func(k int) bool { return scope.Eq(a, b[k]) }))
}

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_member_strings(scope types.Scope, a types.Any, b []string) {
	vRequires(!sIsLazy(a) && b != nil)
	vLoopInv(func(i int) bool { return vForall(i, func(k int) bool { return !scope.Eq(a, b[k]) }) })
	got := MembershipDispatcher{}.Membership(scope, a, b)
	vEnsures("a value is in a list when equal to a member", got == vExists(len(b), func(k int) bool { return scope.Eq(a, b[k]) }))
}

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_no_container(scope types.Scope, a, b types.Any) {
	vRequires(!sIsLazy(a) && sNumOf(b).ok)
	vEnsures("a number has no members", !MembershipDispatcher{}.Membership(scope, a, b))
}

// @contract: C05
// @covers: protocols.MembershipDispatcher.Membership
func C05_not_a_string(scope types.Scope, a types.Any, b string) {
	vRequires(!sIsLazy(a) && !sIsStr(a))
	vEnsures("only strings are in strings", !MembershipDispatcher{}.Membership(scope, a, b))
}

// c05Scope: a scope whose cached value under one key is known.
type c05Scope struct {
	types.Scope
	key    string
	cached types.Any
	has    bool
	sets   int
	setKey string
	setVal types.Any
}

func (self *c05Scope) GetContext(name string) (types.Any, bool) {
	if name == self.key {
		return self.cached, self.has
	}
	return self.Scope.GetContext(name)
}

func (self *c05Scope) SetContext(name string, value types.Any) {
	self.sets++
	self.setKey, self.setVal = name, value
}

// c05Valid: what may be remembered for a pattern.
func c05Valid(v types.Any, re *regexp.Regexp, bad bool) bool {
	if bad {
		return v == nil
	}
	r, ok := v.(*regexp.Regexp)
	return ok && r == re
}

// One use of a pattern, whatever earlier uses left behind for it.
// @contract: C05
// @covers: protocols.RegexDispatcher.Match protocols.Match
// @norac
func C05_pattern(self RegexDispatcher, scope types.Scope, pattern, target string, cached types.Any, has bool) {
	re, err := regexp.Compile("(?i)" + pattern)
	vRequires((err == nil) == (re != nil))
	vRequires(!has || c05Valid(cached, re, err != nil))
	s := &c05Scope{Scope: scope, key: "__re" + pattern, cached: cached, has: has}
	got := self.Match(s, pattern, target)
	if pattern == "" || pattern == "." || pattern == ".*" {
		vCover("match all")
		vEnsures("match-all patterns match", got)
		return
	}
	if err != nil {
		vCover("invalid")
		vEnsures("an invalid pattern matches nothing", !got)
	} else {
		vCover("valid")
		vEnsures("a case-insensitive match", got == re.MatchString(target))
	}
	vEnsures("what is remembered belongs to the pattern", s.sets == 0 || s.setKey == s.key && c05Valid(s.setVal, re, err != nil))
	vEnsures("at most one entry is added", s.sets <= 1)
}

// @contract: C05
// @covers: protocols.RegexDispatcher.Match
func C05_pattern_list(self RegexDispatcher, scope types.Scope, pattern string, target []types.Any) {
	vRequires(target != nil && pattern != "" && pattern != "." && pattern != ".*")
	vLoopInv(func(i int) bool { return vForall(i, func(k int) bool { return !scope.Match(pattern, target[k]) }) })
	got := self.Match(scope, pattern, target)
	vEnsures("a list matches when a member does", got == vExists(len(target), func(k int) bool { return scope.Match(pattern, target[k]) }))
}

// @contract: C05
// @covers: protocols.RegexDispatcher.Match
func C05_pattern_null(scope types.Scope, pattern string, target types.Any) {
	vRequires(pattern != "" && pattern != "." && pattern != ".*")
	vRequires(sIsNull(target) || sNumOf(target).ok)
	vEnsures("NULL and numbers match no pattern", !RegexDispatcher{}.Match(scope, pattern, target))
}
