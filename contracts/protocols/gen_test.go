package protocols

import (
	"context"
	"fmt"
	"math/rand"

	"www.velocidex.com/golang/vfilter/types"
)

// vScope: a scope made of the dispatchers of this package.
type vScope struct {
	types.Scope
	ctx map[string]types.Any
	b   BoolDispatcher
	eq  EqDispatcher
	lt  LtDispatcher
	gt  GtDispatcher
	m   MembershipDispatcher
	as  AssociativeDispatcher
	re  RegexDispatcher
	it  IterateDispatcher
	add AddDispatcher
}

func vNewScope() *vScope { return &vScope{ctx: map[string]types.Any{}} }

func (self *vScope) VShow() string                                 { return "scope" }
func (self *vScope) Copy() types.Scope                             { return self }
func (self *vScope) AppendVars(row types.Row) types.Scope          { return self }
func (self *vScope) GetContext(name string) (types.Any, bool)      { x, ok := self.ctx[name]; return x, ok }
func (self *vScope) SetContext(name string, value types.Any)       { self.ctx[name] = value }
func (self *vScope) Bool(a types.Any) bool                         { return self.b.Bool(context.Background(), self, a) }
func (self *vScope) Eq(a, b types.Any) bool                        { return self.eq.Eq(self, a, b) }
func (self *vScope) Lt(a, b types.Any) bool                        { return self.lt.Lt(self, a, b) }
func (self *vScope) Gt(a, b types.Any) bool                        { return self.gt.Gt(self, a, b) }
func (self *vScope) Add(a, b types.Any) types.Any                  { return self.add.Add(self, a, b) }
func (self *vScope) Membership(a, b types.Any) bool                { return self.m.Membership(self, a, b) }
func (self *vScope) Associative(a, b types.Any) (types.Any, bool)  { return self.as.Associative(self, a, b) }
func (self *vScope) GetMembers(a types.Any) []string               { return self.as.GetMembers(self, a) }
func (self *vScope) Match(a, b types.Any) bool                     { return self.re.Match(self, a, b) }
func (self *vScope) Iterate(ctx context.Context, a types.Any) <-chan types.Row {
	return self.it.Iterate(ctx, self, a)
}
func (self *vScope) Resolve(field string) (interface{}, bool)  { return nil, false }
func (self *vScope) Log(format string, a ...interface{})       {}
func (self *vScope) Error(format string, a ...interface{})     {}
func (self *vScope) Warn(format string, a ...interface{})      {}
func (self *vScope) Debug(format string, a ...interface{})     {}
func (self *vScope) Trace(format string, a ...interface{})     {}
func (self *vScope) CheckForOverflow() bool                    { return false }
func (self *vScope) ChargeOp()                                 {}
func (self *vScope) AddDestructor(fn func()) error             { return nil }
func (self *vScope) IsClosed() bool                            { return false }
func (self *vScope) Close()                                    {}
func (self *vScope) GetAggregatorCtx() types.AggregatorCtx     { return nil }
func (self *vScope) Explainer() types.Explainer                { return nil }
func (self *vScope) GetStats() *types.Stats                    { return &types.Stats{} }

// vExt: an extension of every binary protocol.
type vExt struct {
	app func(a, b types.Any) bool
	res string
	yes bool
}

func (self *vExt) Applicable(a, b types.Any) bool                              { return self.app(a, b) }
func (self *vExt) Add(scope types.Scope, a, b types.Any) types.Any             { return self.res }
func (self *vExt) Sub(scope types.Scope, a, b types.Any) types.Any             { return self.res }
func (self *vExt) Mul(scope types.Scope, a, b types.Any) types.Any             { return self.res }
func (self *vExt) Div(scope types.Scope, a, b types.Any) types.Any             { return self.res }
func (self *vExt) Eq(scope types.Scope, a, b types.Any) bool                   { return self.yes }
func (self *vExt) Lt(scope types.Scope, a, b types.Any) bool                   { return self.yes }
func (self *vExt) Gt(scope types.Scope, a, b types.Any) bool                   { return self.yes }
func (self *vExt) Membership(scope types.Scope, a, b types.Any) bool           { return self.yes }
func (self *vExt) Match(scope types.Scope, a, b types.Any) bool                { return self.yes }
func (self *vExt) GetMembers(scope types.Scope, a types.Any) []string          { return []string{self.res} }
func (self *vExt) Associative(scope types.Scope, a, b types.Any) (types.Any, bool) {
	return self.res, self.yes
}

type vExt1 struct {
	app func(a types.Any) bool
	yes bool
}

func (self *vExt1) Applicable(a types.Any) bool                                { return self.app(a) }
func (self *vExt1) Bool(ctx context.Context, scope types.Scope, a types.Any) bool { return self.yes }
func (self *vExt1) Iterate(ctx context.Context, scope types.Scope, a types.Any) <-chan types.Row {
	c := make(chan types.Row)
	go func() {
		defer close(c)
		c <- "ext"
	}()
	return c
}

func vRandExt(r *rand.Rand) *vExt {
	x := &vExt{res: []string{"r0", "r1", "r2"}[r.Intn(3)], yes: r.Intn(2) == 0}
	switch r.Intn(4) {
	case 0:
		x.app = func(a, b types.Any) bool { return true }
	case 1:
		x.app = func(a, b types.Any) bool { return false }
	case 2:
		x.app = func(a, b types.Any) bool { _, ok := a.(vOther); return ok }
	default:
		x.app = func(a, b types.Any) bool { _, ok := b.(vOther); return ok }
	}
	return x
}

func vRandExt1(r *rand.Rand) *vExt1 {
	x := &vExt1{yes: r.Intn(2) == 0}
	switch r.Intn(3) {
	case 0:
		x.app = func(a types.Any) bool { return true }
	case 1:
		x.app = func(a types.Any) bool { return false }
	default:
		x.app = func(a types.Any) bool { _, ok := a.(vOther); return ok }
	}
	return x
}

func vExts(r *rand.Rand) []*vExt {
	var out []*vExt
	for i := r.Intn(4); i > 0; i-- {
		out = append(out, vRandExt(r))
	}
	return out
}

// vLazy: an expression that evaluates to a fixed value.
type vLazy struct{ v types.Any }

func (self *vLazy) Reduce(ctx context.Context) types.Any { return self.v }
func (self *vLazy) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	return self.v
}
func (self *vLazy) VShow() string { return fmt.Sprintf("lazy(%v)", self.v) }

func init() {
	vRegister(func(r *rand.Rand) types.LazyExpr { return &vLazy{vRandAny(r, 1)} })
	vRegister(func(r *rand.Rand) types.Scope { return vNewScope() })
	vRegister(func(r *rand.Rand) context.Context { return context.Background() })
	vRegister(func(r *rand.Rand) (d AddDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d SubDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d MulDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d DivDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d EqDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d LtDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d GtDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d MembershipDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d AssociativeDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d RegexDispatcher) { for _, x := range vExts(r) { d.AddImpl(x) }; return })
	vRegister(func(r *rand.Rand) (d BoolDispatcher) { for i := r.Intn(3); i > 0; i-- { d.AddImpl(vRandExt1(r)) }; return })
	vRegister(func(r *rand.Rand) (d IterateDispatcher) { for i := r.Intn(3); i > 0; i-- { d.AddImpl(vRandExt1(r)) }; return })
	for i := 0; i < 6; i++ {
		vRegister(func(r *rand.Rand) AddProtocol { return vRandExt(r) })
	}
	vRegister(func(r *rand.Rand) SubProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) MulProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) DivProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) EqProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) LtProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) GtProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) MembershipProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) AssociativeProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) RegexProtocol { return vRandExt(r) })
	vRegister(func(r *rand.Rand) BoolProtocol { return vRandExt1(r) })
	vRegister(func(r *rand.Rand) IterateProtocol { return vRandExt1(r) })
}
