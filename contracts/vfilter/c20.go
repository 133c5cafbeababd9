package vfilter

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
)

// C20: what a node remembers from an evaluation does not show in the next: a
// node that was evaluated in one scope gives in another what a new node of the
// same text gives.

// @contract: C20
// @covers: vfilter._Value.Reduce vfilter._Value.maybeParseStrNumber
// @opaque: vfilter._AndExpression.Reduce vfilter._SymbolRef.Reduce vfilter._CommaExpression.Reduce utils.Unquote
// @norac
func C20_value(ctx context.Context, first, second types.Scope, n *_Value) {
	vRequires(n != nil && n.Int == nil && n.Float == nil && n.cache == nil)
	m := &_Value{SymbolRef: n.SymbolRef, Subexpression: n.Subexpression, String: n.String,
		StrNumber: n.StrNumber, Boolean: n.Boolean, Null: n.Null}
	n.Reduce(ctx, first)
	got := n.Reduce(ctx, second)
	vEnsures("as a new node", vSame(got, m.Reduce(ctx, second)))
	vEnsures("and once more", vSame(n.Reduce(ctx, second), got))
}

// The components of a name, in a list of its own; up to three of them.
func splitCount(s string) int          { return 1 }
func splitPart(s string, i int) string { return s }
func splitAnew(s string) []string {
	switch splitCount(s) {
	case 1:
		return []string{splitPart(s, 0)}
	case 2:
		return []string{splitPart(s, 0), splitPart(s, 1)}
	}
	return []string{splitPart(s, 0), splitPart(s, 1), splitPart(s, 2)}
}

// @contract: C20
// @covers: vfilter._SymbolRef.getFunction
// @assume: utils.SplitIdent=splitAnew
// @opaque: vfilter.splitCount vfilter.splitPart
// @norac
func C20_symbol(first, second types.Scope, n *_SymbolRef) {
	vRequires(n != nil && n.split_symbol == nil && !n.negated && n.function == nil)
	m := &_SymbolRef{Symbol: n.Symbol, Called: n.Called, Parameters: n.Parameters}
	n.getFunction(first)
	res, negated, pres := n.getFunction(second)
	res1, negated1, pres1 := m.getFunction(second)
	vEnsures("found alike", pres == pres1)
	vEnsures("negated alike", negated == negated1)
	vEnsures("as a new node", vSame(res, res1))
}

// @contract: C20
// @covers: vfilter.VQL.getParameters
// @opaque: utils.Unquote_ident
// @maypanic
// @norac
func C20_parameters(n *VQL) {
	vRequires(n != nil && n.argsCache == nil && n.parametersCache == nil)
	p1, d1 := n.getParameters()
	p2, d2 := n.getParameters()
	vEnsures("as many", len(p1) == len(p2))
	vEnsures("the same names", vForall(len(p1), func(i int) bool { return p1[i].Name == p2[i].Name }))
	vEnsures("the same defaults", vSame(d1, d2))
}
