package scope

import (
	"context"

	"github.com/Velocidex/ordereddict"

	"www.velocidex.com/golang/vfilter/protocols"
	"www.velocidex.com/golang/vfilter/types"
)

// C06 at the level of the environment (the dispatcher a scope holds): each
// extension goes to the operator whose interface it implements, and a copied
// environment has the extensions of the original and shares none of the later
// ones. The lists themselves (newest first, any length) are the contracts of
// package protocols.

type cOpnd struct{ n int }

type cApp2 struct{}

func (self cApp2) Applicable(a types.Any, b types.Any) bool { _, ok := a.(cOpnd); return ok }

type cApp1 struct{}

func (self cApp1) Applicable(a types.Any) bool { _, ok := a.(cOpnd); return ok }

type cAdd struct {
	cApp2
	v any
}

func (self cAdd) Add(scope types.Scope, a types.Any, b types.Any) types.Any { return self.v }

type cSub struct {
	cApp2
	v any
}

func (self cSub) Sub(scope types.Scope, a types.Any, b types.Any) types.Any { return self.v }

type cMul struct {
	cApp2
	v any
}

func (self cMul) Mul(scope types.Scope, a types.Any, b types.Any) types.Any { return self.v }

type cDiv struct {
	cApp2
	v any
}

func (self cDiv) Div(scope types.Scope, a types.Any, b types.Any) types.Any { return self.v }

type cLt struct {
	cApp2
	v bool
}

func (self cLt) Lt(scope types.Scope, a types.Any, b types.Any) bool { return self.v }

type cGt struct {
	cApp2
	v bool
}

func (self cGt) Gt(scope types.Scope, a types.Any, b types.Any) bool { return self.v }

type cEq struct {
	cApp2
	v bool
}

func (self cEq) Eq(scope types.Scope, a types.Any, b types.Any) bool { return self.v }

type cMembership struct {
	cApp2
	v bool
}

func (self cMembership) Membership(scope types.Scope, a types.Any, b types.Any) bool { return self.v }

type cMatch struct {
	cApp2
	v bool
}

func (self cMatch) Match(scope types.Scope, a types.Any, b types.Any) bool { return self.v }

type cBool struct {
	cApp1
	v bool
}

func (self cBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool { return self.v }

type cAssoc struct {
	cApp2
	v any
}

func (self cAssoc) Associative(scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
	return self.v, true
}
func (self cAssoc) GetMembers(scope types.Scope, a types.Any) []string { return nil }

type cIter struct {
	cApp1
	out <-chan types.Row
}

func (self cIter) Iterate(ctx context.Context, scope types.Scope, a types.Any) <-chan types.Row {
	return self.out
}

type cVals struct {
	add, sub, mul, div, assoc        any
	lt, gt, eq, member, match, truth bool
	rows                             <-chan types.Row
}

func cSee(s *Scope, a any) cVals {
	r := cVals{add: s.Add(a, a), sub: s.Sub(a, a), mul: s.Mul(a, a), div: s.Div(a, a),
		lt: s.Lt(a, a), gt: s.Gt(a, a), eq: s.Eq(a, a), member: s.Membership(a, a),
		match: s.Match(a, a), truth: s.Bool(a)}
	r.assoc, _ = s.Associative(a, a)
	r.rows = s.Iterate(context.Background(), a)
	return r
}

func cExts(w cVals) []types.Any {
	return []types.Any{cAdd{v: w.add}, cSub{v: w.sub}, cMul{v: w.mul}, cDiv{v: w.div}, cLt{v: w.lt}, cGt{v: w.gt},
		cEq{v: w.eq}, cMembership{v: w.member}, cMatch{v: w.match}, cBool{v: w.truth}, cAssoc{v: w.assoc}, cIter{out: w.rows}}
}

func cSame(a, b cVals) bool {
	return vSame(a.add, b.add) && vSame(a.sub, b.sub) && vSame(a.mul, b.mul) && vSame(a.div, b.div) && vSame(a.assoc, b.assoc) &&
		a.lt == b.lt && a.gt == b.gt && a.eq == b.eq && a.member == b.member && a.match == b.match && a.truth == b.truth && a.rows == b.rows
}

func cEnv(w cVals) *Scope {
	s := &Scope{dispatcher: newprotocolDispatcher()}
	s.AddProtocolImpl(cExts(w)...)
	return s
}

// Registering one extension changes its own operator and no other one.
// @contract: C06
// @covers: scope.protocolDispatcher.AddProtocolImpl scope.Scope.AddProtocolImpl scope.Scope.Add scope.Scope.Sub scope.Scope.Mul scope.Scope.Div scope.Scope.Lt scope.Scope.Gt scope.Scope.Eq scope.Scope.Membership scope.Scope.Match scope.Scope.Bool scope.Scope.Associative scope.Scope.Iterate
// @norac
func C06_scope_register(n int, w0, w cVals, which int) {
	vRequires(0 <= which && which < 12)
	s := cEnv(w0)
	x := cExts(w)[which]
	s.AddProtocolImpl(x)
	want := w0
	switch which {
	case 0:
		want.add = w.add
	case 1:
		want.sub = w.sub
	case 2:
		want.mul = w.mul
	case 3:
		want.div = w.div
	case 4:
		want.lt = w.lt
	case 5:
		want.gt = w.gt
	case 6:
		want.eq = w.eq
	case 7:
		want.member = w.member
	case 8:
		want.match = w.match
	case 9:
		want.truth = w.truth
	case 10:
		want.assoc = w.assoc
	case 11:
		want.rows = w.rows
	}
	vEnsures("the new extension decides its operator and only that", cSame(cSee(s, cOpnd{n}), want))
}

// @contract: C06
// @covers: scope.protocolDispatcher.Copy scope.protocolDispatcher.AddProtocolImpl
// @norac
func C06_scope_copy(n int, w0, w cVals, side bool) {
	s := cEnv(w0)
	c := &Scope{dispatcher: s.dispatcher.Copy()}
	a := cOpnd{n}
	vEnsures("the copy starts with the same extensions", cSame(cSee(c, a), w0))
	x, y := s, c
	if side {
		x, y = c, s
	}
	x.AddProtocolImpl(cExts(w)...)
	vEnsures("the other does not see the later ones", cSame(cSee(y, a), w0))
	vEnsures("its own are used", cSame(cSee(x, a), w))
}

var _ = []any{protocols.AddProtocol(cAdd{}), protocols.SubProtocol(cSub{}), protocols.MulProtocol(cMul{}), protocols.DivProtocol(cDiv{}),
	protocols.LtProtocol(cLt{}), protocols.GtProtocol(cGt{}), protocols.EqProtocol(cEq{}), protocols.MembershipProtocol(cMembership{}),
	protocols.RegexProtocol(cMatch{}), protocols.BoolProtocol(cBool{}), protocols.AssociativeProtocol(cAssoc{}), protocols.IterateProtocol(cIter{})}

type cFn struct{ name string }

func (self cFn) Copy() types.FunctionInterface { return self }
func (self cFn) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return nil
}
func (self cFn) Info(scope types.Scope, type_map *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: self.name}
}

type cPl struct{ name string }

func (self cPl) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	return nil
}
func (self cPl) Info(scope types.Scope, type_map *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: self.name}
}

// Functions and plugins: a copied environment looks up the same name to the
// same thing, and registering in either is not seen by the other.
// @contract: C06
// @covers: scope.protocolDispatcher.Copy scope.protocolDispatcher.AppendFunctions scope.protocolDispatcher.GetFunction scope.Scope.AppendFunctions scope.Scope.GetFunction
// @norac
func C06_scope_functions(fns map[string]types.FunctionInterface, name, extra string, side bool) {
	vRequires(fns != nil)
	d := newprotocolDispatcher()
	d.functions = fns
	s := &Scope{dispatcher: d}
	f0, ok0 := s.GetFunction(name)
	c := &Scope{dispatcher: s.dispatcher.Copy()}
	f1, ok1 := c.GetFunction(name)
	vEnsures("the copy knows the same functions", vAnd(ok1 == ok0, vSame(f0, f1)))
	x, y := s, c
	if side {
		x, y = c, s
	}
	x.AppendFunctions(cFn{extra})
	f2, ok2 := y.GetFunction(name)
	vEnsures("the other does not see later functions", vAnd(ok2 == ok0, vSame(f0, f2)))
	f3, ok3 := x.GetFunction(name)
	vEnsures("its own are found, others stay", vAnd(vImplies(name == extra, vAnd(ok3, vSame(f3, types.FunctionInterface(cFn{extra})))),
		vImplies(name != extra, vAnd(ok3 == ok0, vSame(f3, f0)))))
}

// @contract: C06
// @covers: scope.protocolDispatcher.Copy scope.protocolDispatcher.AppendPlugins scope.protocolDispatcher.GetPlugin scope.Scope.AppendPlugins scope.Scope.GetPlugin
// @norac
func C06_scope_plugins(pls map[string]types.PluginGeneratorInterface, name, extra string, side bool) {
	vRequires(pls != nil)
	d := newprotocolDispatcher()
	d.plugins = pls
	s := &Scope{dispatcher: d}
	p0, ok0 := s.GetPlugin(name)
	c := &Scope{dispatcher: s.dispatcher.Copy()}
	p1, ok1 := c.GetPlugin(name)
	vEnsures("the copy knows the same plugins", vAnd(ok1 == ok0, vSame(p0, p1)))
	x, y := s, c
	if side {
		x, y = c, s
	}
	x.AppendPlugins(cPl{extra})
	p2, ok2 := y.GetPlugin(name)
	vEnsures("the other does not see later plugins", vAnd(ok2 == ok0, vSame(p0, p2)))
	p3, ok3 := x.GetPlugin(name)
	vEnsures("its own are found, others stay", vAnd(vImplies(name == extra, vAnd(ok3, vSame(p3, types.PluginGeneratorInterface(cPl{extra})))),
		vImplies(name != extra, vAnd(ok3 == ok0, vSame(p3, p0)))))
}
