package vfilter

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"
	"unicode"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// Reference evaluation of expressions on the VQL scalars (NULL, bool, int64,
// float64, string), written independently of the code.

type apiNum struct {
	ok, isF bool
	i       int64
	f       float64
}

func refNum(x types.Any) apiNum {
	switch t := x.(type) {
	case bool:
		if t {
			return apiNum{true, false, 1, 1}
		}
		return apiNum{true, false, 0, 0}
	case int64:
		return apiNum{true, false, t, float64(t)}
	case float64:
		return apiNum{true, true, int64(t), t}
	}
	return apiNum{}
}

func refNull(x types.Any) bool {
	switch x.(type) {
	case nil, types.Null, *types.Null:
		return true
	}
	return false
}

var refNULL = types.Null{}

func refArith(op string, a, b types.Any) types.Any {
	if sa, ok := a.(string); ok && op == "+" {
		if sb, ok := b.(string); ok {
			return sa + sb
		}
	}
	if sa, ok := a.(string); ok && op == "*" {
		n := refNum(b)
		if !n.ok || n.i < 0 || len(sa) > 0 && n.i > 100000000/int64(len(sa)) {
			return refNULL
		}
		if len(sa) == 0 {
			return ""
		}
		return strings.Repeat(sa, int(n.i))
	}
	x, y := refNum(a), refNum(b)
	if !x.ok || !y.ok {
		return refNULL
	}
	if op == "/" {
		if y.f == 0 {
			return refNULL
		}
		return x.f / y.f
	}
	if x.isF || y.isF {
		switch op {
		case "+":
			return x.f + y.f
		case "-":
			return x.f - y.f
		default:
			return x.f * y.f
		}
	}
	switch op {
	case "+":
		return x.i + y.i
	case "-":
		return x.i - y.i
	}
	return x.i * y.i
}

func refNeg(x types.Any) types.Any {
	switch t := x.(type) {
	case int64:
		return -t
	case float64:
		return -t
	}
	return refNULL
}

func refLess(a, b types.Any) bool {
	if sa, ok := a.(string); ok {
		sb, ok := b.(string)
		return ok && sa < sb
	}
	x, y := refNum(a), refNum(b)
	if !x.ok || !y.ok {
		return false
	}
	if x.isF || y.isF {
		return x.f < y.f
	}
	return x.i < y.i
}

func refEq(a, b types.Any) bool {
	if refNull(a) || refNull(b) {
		return refNull(a) && refNull(b)
	}
	if sa, ok := a.(string); ok {
		sb, ok := b.(string)
		return ok && sa == sb
	}
	x, y := refNum(a), refNum(b)
	if !x.ok || !y.ok {
		return false
	}
	if x.isF || y.isF {
		return x.f == y.f
	}
	return x.i == y.i
}

func refBool(a types.Any) bool {
	if s, ok := a.(string); ok {
		return s != ""
	}
	switch t := a.(type) {
	case []types.Any:
		return len(t) > 0
	case *ordereddict.Dict:
		return t.Len() > 0
	}
	x := refNum(a)
	return x.ok && x.f > 0
}

func refCompare(op string, a, b types.Any) bool {
	switch op {
	case "<":
		return refLess(a, b)
	case ">":
		return refLess(b, a)
	case "=":
		return refEqDeep(a, b)
	case "!=", "<>":
		return !refEqDeep(a, b)
	case "<=":
		return refLess(a, b) || refEqDeep(a, b)
	}
	return refLess(b, a) || refEqDeep(a, b)
}

var apiScalars = []types.Any{nil, types.Null{}, true, false, int64(0), int64(1), int64(-1), int64(2), int64(3), int64(-7), int64(1) << 40,
	int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<53 + 1, 0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -2.5, 1e300, float64(1 << 53), math.Inf(1), "", "a", "b", "ab", "Ab", "1", "日本"}

func apiScalar(r *rand.Rand) types.Any {
	switch r.Intn(5) {
	case 0:
		return int64(r.Uint64())
	case 1:
		return int64(r.Intn(9) - 4)
	case 2:
		return float64(r.Intn(17)-8) / 2
	}
	return apiScalars[r.Intn(len(apiScalars))]
}

// apiNode: an expression whose leaves are recorded calls ev(n=K).
type apiNode struct {
	op   string // "leaf", "and", "or", "not", "+", ..., "<", ...
	id   int
	kids []*apiNode
}

func (self *apiNode) text() string {
	switch self.op {
	case "leaf":
		return fmt.Sprintf("ev(n=%d)", self.id)
	case "not":
		return "(NOT " + self.kids[0].text() + ")"
	}
	var p []string
	for _, k := range self.kids {
		p = append(p, k.text())
	}
	return "(" + strings.Join(p, " "+strings.ToUpper(self.op)+" ") + ")"
}

func (self *apiNode) eval(vals map[string]types.Any, trace *[]string) types.Any {
	switch self.op {
	case "leaf":
		k := fmt.Sprint(self.id)
		*trace = append(*trace, k)
		return vals[k]
	case "not":
		return !refBool(self.kids[0].eval(vals, trace))
	case "and":
		// any false operand: false
		for _, k := range self.kids {
			if !refBool(k.eval(vals, trace)) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range self.kids {
			if refBool(k.eval(vals, trace)) {
				return true
			}
		}
		return false
	case "+", "-", "*", "/":
		v := self.kids[0].eval(vals, trace)
		for _, k := range self.kids[1:] {
			v = refArith(self.op, v, k.eval(vals, trace))
		}
		return v
	}
	a := self.kids[0].eval(vals, trace)
	b := self.kids[1].eval(vals, trace)
	return refCompare(self.op, a, b)
}

// boolean trees
func apiBoolTree(r *rand.Rand, depth int, next *int) *apiNode {
	if depth == 0 || r.Intn(5) == 0 {
		*next++
		return &apiNode{op: "leaf", id: *next}
	}
	switch r.Intn(5) {
	case 0:
		return &apiNode{op: "not", kids: []*apiNode{apiBoolTree(r, depth-1, next)}}
	case 1:
		return &apiNode{op: []string{"<", ">", "=", "!=", "<>", "<=", ">="}[r.Intn(7)],
			kids: []*apiNode{apiBoolTree(r, 0, next), apiBoolTree(r, 0, next)}}
	}
	n := &apiNode{op: []string{"and", "or"}[r.Intn(2)]}
	for i := 2 + r.Intn(3); i > 0; i-- {
		n.kids = append(n.kids, apiBoolTree(r, depth-1, next))
	}
	return n
}

// numeric trees; chains keep one operator class so that they are written
// without inner parentheses
func apiNumTree(r *rand.Rand, depth int, next *int) *apiNode {
	if depth == 0 || r.Intn(6) == 0 {
		*next++
		return &apiNode{op: "leaf", id: *next}
	}
	n := &apiNode{op: []string{"+", "-", "*", "/"}[r.Intn(4)]}
	for i := 2 + r.Intn(3); i > 0; i-- {
		n.kids = append(n.kids, apiNumTree(r, depth-1, next))
	}
	return n
}

func apiTruthValue(r *rand.Rand) types.Any {
	switch r.Intn(8) {
	case 0:
		return []types.Any{}
	case 1:
		return []types.Any{int64(0)}
	case 2:
		return ordereddict.NewDict()
	case 3:
		return ordereddict.NewDict().Set("a", nil)
	}
	return apiScalar(r)
}

func apiCheckTree(name string, r *rand.Rand, t *apiNode, n int, value func(r *rand.Rand) types.Any) {
	e := apiNew()
	for i := 1; i <= n; i++ {
		e.values[fmt.Sprint(i)] = value(r)
		vInfo("ev(n=%d) returns %s", i, apiText(e.values[fmt.Sprint(i)]))
	}
	vInfo("expression %s", t.text())
	var want []string
	w := t.eval(e.values, &want)
	got := e.expr(t.text())
	again := e.expr(t.text())
	if t.op == "and" || t.op == "or" {
		got, again = refBool(got), refBool(again)
	}
	apiSame(name+": value", apiText(w), apiText(got))
	apiSame(name+": order of evaluation, twice", strings.Join(append(want, want...), " "), e.trace())
	apiSame(name+": value when evaluated again", apiText(w), apiText(again))
}

// @contract: C03
// @bounded
func C03_api_trees(s vSeed) {
	r := apiRand(s)
	n := 0
	t := apiBoolTree(r, 1+r.Intn(3), &n)
	apiCheckTree("AND, OR, NOT", r, t, n, apiTruthValue)
}

// A stored query counts as true exactly when it has a row.
// @contract: C03
// @bounded
// @covers: protocols._StoredQueryBool.Bool
func C03_api_query(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := r.Intn(3)
	for i := 0; i < n; i++ {
		e.rows = append(e.rows, ordereddict.NewDict().Set("X", apiTruthValue(r)))
	}
	want := n > 0
	vInfo("%v rows", n)
	e.query("LET q = SELECT * FROM src() LET m <= SELECT * FROM src()")
	e.values["1"] = true
	for _, name := range []string{"q", "m"} {
		vEnsures("NOT "+name, e.expr("NOT "+name) == any(!want))
		vEnsures(name+" AND TRUE", e.scope.Bool(e.expr(name+" AND TRUE")) == want)
		vEnsures(name+" OR FALSE", e.scope.Bool(e.expr(name+" OR FALSE")) == want)
		vEnsures("WHERE "+name, (len(e.query("SELECT 1 AS A FROM scope() WHERE "+name)) == 1) == want)
		vEnsures("if "+name, e.expr("if(condition="+name+", then=1, else=2)") == any(map[bool]int64{true: 1, false: 2}[want]))
		e.events = nil
		e.expr(name + " AND ev(n=1)")
		vEnsures("the operand after it is evaluated only if needed", (len(e.events) == 1) == want)
	}
}

// Flat mixtures of AND and OR: OR binds tighter than AND.
// @contract: C03
// @bounded
func C03_api_precedence(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	top := &apiNode{op: "and"}
	var text []string
	id := 0
	for i := 1 + r.Intn(3); i > 0; i-- {
		or := &apiNode{op: "or"}
		var p []string
		for j := 1 + r.Intn(3); j > 0; j-- {
			id++
			leaf := &apiNode{op: "leaf", id: id}
			if r.Intn(3) == 0 {
				p = append(p, "NOT "+leaf.text())
				leaf = &apiNode{op: "not", kids: []*apiNode{leaf}}
			} else {
				p = append(p, leaf.text())
			}
			or.kids = append(or.kids, leaf)
		}
		text = append(text, strings.Join(p, []string{" OR ", " or "}[r.Intn(2)]))
		top.kids = append(top.kids, or)
	}
	q := strings.Join(text, " AND ")
	for i := 1; i <= id; i++ {
		e.values[fmt.Sprint(i)] = apiTruthValue(r)
		vInfo("ev(n=%d) returns %s", i, apiText(e.values[fmt.Sprint(i)]))
	}
	vInfo("expression %s", q)
	var want []string
	w := top.eval(e.values, &want)
	got := e.expr(q)
	vEnsures("truth value", refBool(w) == e.scope.Bool(got))
	apiSame("order of evaluation", strings.Join(want, " "), e.trace())
}

// The truth value seen by WHERE, NOT and AND is that of scope.Bool, also for
// values that are computed lazily.
// @contract: C03
// @bounded
func C03_api_truth(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	v := apiTruthValue(r)
	vInfo("value %s", apiText(v))
	e.values["1"] = v
	want := refBool(v)
	vEnsures("scope.Bool", e.scope.Bool(v) == want)
	vEnsures("NOT", e.expr("NOT ev(n=1)") == any(!want))
	vEnsures("NOT NOT", e.expr("NOT NOT ev(n=1)") == any(want))
	e.rows = []types.Row{ordereddict.NewDict().Set("X", v)}
	vEnsures("WHERE", (len(e.query("SELECT X FROM src() WHERE X")) == 1) == want)
	e.queryIn(e.scope, "LET lazyv = ev(n=1)")
	vEnsures("lazy expression", (len(e.query("SELECT X FROM src() WHERE lazyv")) == 1) == want)
	vEnsures("alias", (len(e.query("SELECT ev(n=1) AS Y FROM src() WHERE Y")) == 1) == want)
}

// @contract: C01
// @bounded
func C01_api_trees(s vSeed) {
	r := apiRand(s)
	n := 0
	t := apiNumTree(r, 1+r.Intn(3), &n)
	apiCheckTree("arithmetic", r, t, n, func(r *rand.Rand) types.Any {
		for {
			v := apiScalar(r)
			if _, ok := v.(bool); !ok {
				return v
			}
		}
	})
}

// Precedence and associativity without parentheses.
// @contract: C01
// @bounded
func C01_api_chain(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := 1 + r.Intn(6)
	var ops []string
	text := ""
	var vals []types.Any
	for i := 0; i < n; i++ {
		if i > 0 {
			op := []string{"+", "-", "*", "/"}[r.Intn(4)]
			ops = append(ops, op)
			text += " " + op + " "
		}
		v := types.Any(int64(r.Intn(12)))
		if r.Intn(3) == 0 {
			v = float64(r.Intn(20)) + 0.25
		}
		vals = append(vals, v)
		switch r.Intn(3) {
		case 0:
			if f, ok := v.(float64); ok {
				text += fmt.Sprintf("%.2f", f)
			} else {
				text += apiText(v)
			}
		case 1:
			e.set(fmt.Sprintf("v%d", i), v)
			text += fmt.Sprintf("v%d", i)
		default:
			e.values[fmt.Sprint(i)] = v
			text += fmt.Sprintf("ev(n=%d)", i)
		}
	}
	vInfo("%s values %s", text, apiList(vals))
	// products first, left to right, then sums left to right
	var terms []types.Any
	var tops []string
	cur := vals[0]
	for i, op := range ops {
		if op == "*" || op == "/" {
			cur = refArith(op, cur, vals[i+1])
		} else {
			terms, tops = append(terms, cur), append(tops, op)
			cur = vals[i+1]
		}
	}
	terms = append(terms, cur)
	want := terms[0]
	for i, op := range tops {
		want = refArith(op, want, terms[i+1])
	}
	apiSame("value", apiText(want), apiText(e.expr(text)))
}

// List concatenation builds new lists.
// @contract: C01
// @bounded
func C01_api_lists(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	mk := func() []types.Any {
		n := r.Intn(4)
		l := make([]types.Any, 0, n+r.Intn(5))
		for i := 0; i < n; i++ {
			l = append(l, apiScalar(r))
		}
		return l
	}
	a, b, c := mk(), mk(), mk()
	vInfo("A=%s B=%s C=%s", apiList(a), apiList(b), apiList(c))
	cat := func(xs ...[]types.Any) string {
		var out []types.Any
		for _, x := range xs {
			out = append(out, x...)
		}
		return apiList(out)
	}
	ta, tb, tc := apiList(a), apiList(b), apiList(c)
	e.set("A", a)
	e.set("B", b)
	e.set("C", c)
	x := e.expr("A + B")
	y := e.expr("A + C")
	z := e.expr("A + B + C")
	apiSame("A + B", cat(a, b), apiText(x))
	apiSame("A + C", cat(a, c), apiText(y))
	apiSame("A + B + C", cat(a, b, c), apiText(z))
	apiSame("A is unchanged", ta, apiList(a))
	apiSame("B is unchanged", tb, apiList(b))
	apiSame("C is unchanged", tc, apiList(c))
}

// No pair of values aborts an operator, and NULL is absorbing.
// @contract: C01
// @bounded
func C01_api_total(a, b types.Any) {
	e := apiNew()
	e.set("A", a)
	e.set("B", b)
	for _, op := range []string{"+", "-", "*", "/"} {
		res := e.expr("A " + op + " B")
		x, y := refNum(a), refNum(b)
		_, sa := a.(string)
		_, sb := b.(string)
		scal := func(v types.Any, n apiNum, str bool) bool { return n.ok && v != true && v != false || str || refNull(v) }
		if scal(a, x, sa) && scal(b, y, sb) {
			apiSame(op, apiText(refArith(op, a, b)), apiText(res))
		}
	}
}

// @contract: C02
// @bounded
func C02_api_operators(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	a, b := apiScalar(r), apiScalar(r)
	e.set("A", a)
	e.set("B", b)
	vInfo("A=%s B=%s", apiText(a), apiText(b))
	for _, op := range []string{"<", ">", "=", "!=", "<>", "<=", ">="} {
		want := refCompare(op, a, b)
		apiSame("A "+op+" B", fmt.Sprint(want), apiText(e.expr("A "+op+" B")))
	}
	vEnsures("scope.Lt", e.scope.Lt(a, b) == refLess(a, b))
	vEnsures("scope.Gt", e.scope.Gt(a, b) == refLess(b, a))
	vEnsures("scope.Eq", e.scope.Eq(a, b) == refEq(a, b))
}

func apiValue(r *rand.Rand, depth int) types.Any {
	if depth == 0 {
		return apiScalar(r)
	}
	switch r.Intn(4) {
	case 0:
		l := []types.Any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, apiValue(r, depth-1))
		}
		return l
	case 1:
		d := ordereddict.NewDict()
		for i := r.Intn(4); i > 0; i-- {
			d.Set([]string{"a", "b", "c", "B"}[r.Intn(4)], apiValue(r, depth-1))
		}
		return d
	}
	return apiScalar(r)
}

func refEqDeep(a, b types.Any) bool {
	if la, ok := a.([]types.Any); ok {
		lb, ok := b.([]types.Any)
		if !ok || len(la) != len(lb) {
			return false
		}
		for i := range la {
			if !refEqDeep(la[i], lb[i]) {
				return false
			}
		}
		return true
	}
	if da, ok := a.(*ordereddict.Dict); ok {
		db, ok := b.(*ordereddict.Dict)
		if !ok || da.Len() != db.Len() {
			return false
		}
		for _, k := range da.Keys() {
			x, _ := da.Get(k)
			y, ok := db.Get(k)
			if !ok || !refEqDeep(x, y) {
				return false
			}
		}
		return true
	}
	return refEq(a, b)
}

func apiMutate(r *rand.Rand, v types.Any) types.Any {
	switch t := v.(type) {
	case []types.Any:
		out := append([]types.Any{}, t...)
		if len(out) > 0 && r.Intn(2) == 0 {
			i := r.Intn(len(out))
			out[i] = apiMutate(r, out[i])
			return out
		}
		switch r.Intn(3) {
		case 0:
			return append(out, apiScalar(r))
		case 1:
			if len(out) > 0 {
				return out[:len(out)-1]
			}
		}
		return out
	case *ordereddict.Dict:
		out := ordereddict.NewDict()
		keys := t.Keys()
		if r.Intn(2) == 0 {
			r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		drop := -1
		if r.Intn(3) == 0 && len(keys) > 0 {
			drop = r.Intn(len(keys))
		}
		mut := -1
		if r.Intn(3) == 0 && len(keys) > 0 {
			mut = r.Intn(len(keys))
		}
		for i, k := range keys {
			x, _ := t.Get(k)
			if i == mut {
				x = apiMutate(r, x)
			}
			if i != drop {
				out.Set(k, x)
			} else if r.Intn(2) == 0 {
				out.Set(k+"x", x)
			}
		}
		return out
	}
	if r.Intn(2) == 0 {
		return v
	}
	return apiScalar(r)
}

// Lists and dicts are compared member by member.
// @contract: C02
// @bounded
func C02_api_containers(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	a := apiValue(r, 2)
	b := apiMutate(r, a)
	vInfo("A=%s B=%s", apiText(a), apiText(b))
	e.set("A", a)
	e.set("B", b)
	want := refEqDeep(a, b)
	apiSame("A = B", fmt.Sprint(want), apiText(e.expr("A = B")))
	apiSame("B = A", fmt.Sprint(want), apiText(e.expr("B = A")))
	apiSame("A != B", fmt.Sprint(!want), apiText(e.expr("A != B")))
}

// ---- C04 ----

func refIndex(n int, i int64) (int, bool) {
	if i < 0 {
		i += int64(n)
	}
	return int(i), i >= 0 && i < int64(n)
}

func refBounds(n int, lo, hi *int64) (int, int) {
	cl := func(i int64) int {
		if i < 0 {
			i += int64(n)
			if i < 0 {
				i = 0
			}
		}
		if i > int64(n) {
			i = int64(n)
		}
		return int(i)
	}
	l, h := 0, n
	if lo != nil {
		l = cl(*lo)
	}
	if hi != nil {
		h = cl(*hi)
	}
	if l > h {
		h = l
	}
	return l, h
}

func apiIndex(r *rand.Rand) int64 {
	if r.Intn(8) == 0 {
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 32, -(1 << 32), 1000}[r.Intn(7)]
	}
	return int64(r.Intn(15) - 7)
}

// @contract: C04
// @bounded
func C04_api_index(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := r.Intn(6)
	l := []types.Any{}
	str := ""
	for i := 0; i < n; i++ {
		l = append(l, apiScalar(r))
		str += string("abcdef"[r.Intn(6)])
	}
	i := apiIndex(r)
	vInfo("L=%s S=%q I=%d", apiList(l), str, i)
	e.set("L", l)
	e.set("S", str)
	e.set("I", i)
	var want types.Any = refNULL
	wantS := types.Any(refNULL)
	if p, ok := refIndex(n, i); ok {
		want = l[p]
		wantS = str[p : p+1]
	}
	apiSame("L[I]", apiText(want), apiText(e.expr("L[I]")))
	if s, ok := e.expr("S[I]").(string); ok || refNull(wantS) {
		if ok {
			apiSame("S[I]", apiText(wantS), apiText(s))
		} else {
			apiSame("S[I]", apiText(wantS), apiText(e.expr("S[I]")))
		}
	} else {
		// a single character may be represented by its code
		v := e.expr("S[I]")
		x := refNum(v)
		b, isB := v.(uint8)
		vEnsures("S[I] is the addressed character", x.ok && x.i == int64(wantS.(string)[0]) || isB && b == wantS.(string)[0])
	}
	if i > -1000 && i < 1000 {
		apiSame("L[literal]", apiText(want), apiText(e.expr(fmt.Sprintf("L[%d]", i))))
	}
	a, pres := e.scope.Associative(l, i)
	_, ok := refIndex(n, i)
	vEnsures("presence", pres == ok || !pres && ok && refNull(want) || pres && refNull(a))
}

// @contract: C04
// @bounded
func C04_api_slice(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := r.Intn(6)
	l := []types.Any{}
	str := ""
	for i := 0; i < n; i++ {
		l = append(l, int64(i*10))
		str += string("abcdef"[r.Intn(6)])
	}
	var lo, hi *int64
	ts, tl, th := "", "", ""
	if r.Intn(4) > 0 {
		x := apiIndex(r)
		lo, tl = &x, "LO"
		e.set("LO", x)
		ts += fmt.Sprintf(" LO=%d", x)
	}
	if r.Intn(4) > 0 {
		x := apiIndex(r)
		hi, th = &x, "HI"
		e.set("HI", x)
		ts += fmt.Sprintf(" HI=%d", x)
	}
	vInfo("L=%s S=%q%s", apiList(l), str, ts)
	e.set("L", l)
	e.set("S", str)
	a, b := refBounds(n, lo, hi)
	apiSame("L[LO:HI]", apiList(l[a:b]), apiText(e.expr("L["+tl+":"+th+"]")))
	apiSame("S[LO:HI]", apiText(str[a:b]), apiText(e.expr("S["+tl+":"+th+"]")))
	apiSame("L is unchanged", fmt.Sprint(n), fmt.Sprint(len(l)))
}

// @contract: C04
// @bounded
func C04_api_fields(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	d := ordereddict.NewDict()
	for i := r.Intn(4); i > 0; i-- {
		d.Set([]string{"a", "b", "c d", "B", "0"}[r.Intn(5)], apiValue(r, 1))
	}
	outer := ordereddict.NewDict().Set("d", d).Set("l", []types.Any{d, int64(5)})
	e.set("D", d)
	e.set("O", outer)
	vInfo("D=%s", apiText(d))
	for _, k := range []string{"a", "b", "c d", "B", "0", "zz"} {
		var want types.Any = refNULL
		if v, ok := d.Get(k); ok {
			want = v
		}
		e.set("K", k)
		apiSame("D[K]", apiText(want), apiText(e.expr("D[K]")))
		if k != "c d" && k != "0" {
			apiSame("D."+k, apiText(want), apiText(e.expr("D."+k)))
			apiSame("O.d."+k, apiText(want), apiText(e.expr("O.d."+k)))
			apiSame("O.l[0]."+k, apiText(want), apiText(e.expr("O.l[0]."+k)))
		}
		apiSame("D.`"+k+"`", apiText(want), apiText(e.expr("D.`"+k+"`")))
	}
	dd := ordereddict.NewDict().SetDefault("dflt").Set("a", int64(1))
	dv, pres := e.scope.Associative(dd, "zz")
	vEnsures("a missing key is absent", !pres)
	apiSame("with the dict's default", apiText("dflt"), apiText(dv))
	dv, pres = e.scope.Associative(dd, "a")
	vEnsures("a key that is there", pres)
	apiSame("a key that is there", apiText(int64(1)), apiText(dv))
}

// Subscripts of any value by any value never abort.
// @contract: C04
// @bounded
func C04_api_total(a, b types.Any) {
	e := apiNew()
	e.set("A", a)
	e.set("B", b)
	e.expr("A[B]")
	e.expr("A[B:]")
	e.expr("A[:B]")
	e.expr("A[B:B]")
	e.expr("A.foo")
	e.scope.GetMembers(a)
	switch a.(type) {
	case nil, types.Null, *types.Null, bool, int64, float64:
		vEnsures("a scalar has no elements", refNull(e.expr("A[B]")))
	}
}

// Lists of dicts: .name collects the member of those that have it; and what a
// query was materialized into (LET X <= SELECT) is such a list.
//
// @contract: C04
// @bounded
// @covers: protocols.DefaultAssociative.Associative materializer.InMemoryMatrializer.Associative materializer.InMemoryMatrializer.Applicable
func C04_api_columns(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := r.Intn(5)
	keys := []string{"a", "b", "C", "_d"}
	l := []types.Any{}
	complete := r.Intn(2) == 0
	for i := 0; i < n; i++ {
		d := ordereddict.NewDict().Set("i", int64(i))
		for _, k := range keys {
			if complete || r.Intn(3) > 0 {
				d.Set(k, []types.Any{int64(r.Intn(5)), "s", 0.5, true}[r.Intn(4)])
			}
		}
		l = append(l, d)
		e.rows = append(e.rows, d)
	}
	e.set("L", l)
	e.query("LET M <= SELECT * FROM src()")
	vInfo("L=%s", apiList(l))
	i := int64(r.Intn(11) - 5)
	j := int64(r.Intn(11) - 5)
	lo, hi := refBounds(n, &i, &j)
	e.set("I", i)
	e.set("J", j)
	for _, k := range append([]string{"zz"}, keys...) {
		column := func(of []types.Any) string {
			list := []types.Any{}
			for _, d := range of {
				if v, ok := d.(*ordereddict.Dict).Get(k); ok {
					list = append(list, v)
				}
			}
			return apiList(list)
		}
		list := func(v types.Any) string {
			if refNull(v) {
				return apiList(nil)
			}
			return apiText(v)
		}
		apiSame("L."+k, column(l), list(e.expr("L."+k)))
		apiSame("L[I:J]."+k, column(l[lo:hi]), list(e.expr("L[I:J]."+k)))
		// a row without the column counts as skipped or as NULL
		table := func(of []types.Any, got types.Any) string {
			full := []types.Any{}
			for _, d := range of {
				v, _ := d.(*ordereddict.Dict).Get(k)
				full = append(full, v)
			}
			if list(got) == apiList(full) {
				return column(of)
			}
			return list(got)
		}
		apiSame("M."+k, column(l), table(l, e.expr("M."+k)))
		var want types.Any = refNULL
		if p, ok := refIndex(n, i); ok {
			if v, ok := l[p].(*ordereddict.Dict).Get(k); ok {
				want = v
			}
		}
		apiSame("L[I]."+k, apiText(want), apiText(e.expr("L[I]."+k)))
		apiSame("M[I]."+k, apiText(want), apiText(e.expr("M[I]."+k)))
		apiSame("M[I:J]."+k, column(l[lo:hi]), table(l[lo:hi], e.expr("M[I:J]."+k)))
	}
	apiSame("the length", fmt.Sprint(n), apiText(e.expr("len(list=L)")))
	apiSame("the length of what was materialized", fmt.Sprint(n), apiText(e.expr("len(list=M)")))
}

// ---- C05 ----

// @contract: C05
// @bounded
func C05_api_membership(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	x := apiScalar(r)
	var y types.Any
	switch r.Intn(4) {
	case 0:
		l := []types.Any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, apiScalar(r))
		}
		if r.Intn(2) == 0 {
			l = append(l, x, apiScalar(r))
		}
		y = l
	case 1:
		d := ordereddict.NewDict()
		for i := r.Intn(4); i > 0; i-- {
			d.Set([]string{"a", "b", "ab", "1", ""}[r.Intn(5)], apiScalar(r))
		}
		y = d
	case 2:
		y = []string{"", "abc", "Ab", "xabx", "1a", "日本語"}[r.Intn(6)]
	default:
		y = apiScalar(r)
	}
	vInfo("X=%s Y=%s", apiText(x), apiText(y))
	want := false
	sx, isS := x.(string)
	switch t := y.(type) {
	case []types.Any:
		for _, m := range t {
			want = want || refEqDeep(x, m)
		}
	case *ordereddict.Dict:
		if isS {
			_, want = t.Get(sx)
		}
	case string:
		want = isS && strings.Contains(t, sx)
	}
	e.set("X", x)
	e.set("Y", y)
	apiSame("X IN Y", fmt.Sprint(want), apiText(e.expr("X IN Y")))
	apiSame("NOT X IN Y", fmt.Sprint(!want), apiText(e.expr("NOT X IN Y")))
	apiSame("X IN Y again", fmt.Sprint(want), apiText(e.expr("X in Y")))
}

var apiPatterns = []string{"", ".", ".*", "a", "A", "^a", "b$", "a.c", "(", "[", "*", "a|b", "^$", "\\d+", "\\D+", "\\w", "\\W", "日", "(?i)x", "a+", "[a-c]{2}", "\\", "a)"}
var apiTargets = []string{"", "a", "A", "ab", "abc", "AxC", "123", "日本", "xyz", "a\nb", "(", "[x", "cab", "b"}

func refMatch(pattern string, target types.Any) bool {
	switch pattern {
	case "", ".", ".*":
		return true
	}
	re, err := regexp.Compile("(?i)" + pattern)
	if err != nil {
		return false
	}
	switch t := target.(type) {
	case string:
		return re.MatchString(t)
	case []types.Any:
		for _, m := range t {
			if refMatch(pattern, m) {
				return true
			}
		}
	}
	return false
}

// @contract: C05
// @bounded
func C05_api_match(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	target := func() types.Any {
		switch r.Intn(5) {
		case 0:
			l := []types.Any{}
			for i := r.Intn(4); i > 0; i-- {
				if r.Intn(4) == 0 {
					l = append(l, apiScalar(r))
				} else {
					l = append(l, apiTargets[r.Intn(len(apiTargets))])
				}
			}
			return l
		case 1:
			return apiScalar(r)
		}
		return apiTargets[r.Intn(len(apiTargets))]
	}
	// several patterns in turn, repeatedly, in one environment
	ps := []string{apiPatterns[r.Intn(len(apiPatterns))], apiPatterns[r.Intn(len(apiPatterns))], apiPatterns[r.Intn(len(apiPatterns))]}
	if r.Intn(3) == 0 {
		// the same one but for the case of its letters
		ps[1] = strings.Map(func(c rune) rune {
			if unicode.IsUpper(c) {
				return unicode.ToLower(c)
			}
			return unicode.ToUpper(c)
		}, ps[0])
	}
	for i := 0; i < 6; i++ {
		p, t := ps[r.Intn(3)], target()
		vInfo("%s =~ %q", apiText(t), p)
		e.set("P", p)
		e.set("T", t)
		apiSame("T =~ P", fmt.Sprint(refMatch(p, t)), apiText(e.expr("T =~ P")))
		vEnsures("the same through scope.Match", e.scope.Match(p, t) == refMatch(p, t))
	}
}

// Matching and membership of any values never abort.
// @contract: C05
// @bounded
func C05_api_total(a, b types.Any) {
	e := apiNew()
	e.set("A", a)
	e.set("B", b)
	e.expr("A IN B")
	e.expr("A =~ B")
	if refNull(b) {
		vEnsures("nothing is a member of NULL", e.expr("A IN B") == any(false))
	}
}

// ---- C20 ----

func apiLiteral(r *rand.Rand) (string, types.Any) {
	switch r.Intn(9) {
	case 0:
		n := r.Int63n(1000)
		return fmt.Sprint(n), n
	case 1:
		n := int64(r.Intn(100))
		return fmt.Sprintf("-%d", n), -n
	case 2:
		f := float64(r.Intn(1000))/8 + 0.125
		return fmt.Sprintf("%.3f", f), f
	case 3:
		f := float64(r.Intn(1000))/8 + 0.125
		return fmt.Sprintf("-%.3f", f), -f
	case 4:
		n := r.Int63n(1 << 40)
		return fmt.Sprintf("0x%x", n), n
	case 5:
		return "'str'", "str"
	case 6:
		return []string{"TRUE", "true", "True"}[r.Intn(3)], true
	case 7:
		return []string{"FALSE", "false"}[r.Intn(2)], false
	}
	return "NULL", refNULL
}

// A parsed expression gives the same value every time, from every scope.
// @contract: C20
// @bounded
func C20_api_again(s vSeed) {
	r := apiRand(s)
	// the text refers to x, which each scope binds differently
	var build func(depth int) (string, func(x types.Any) types.Any)
	build = func(depth int) (string, func(x types.Any) types.Any) {
		if depth == 0 {
			switch r.Intn(4) {
			case 0:
				return "x", func(x types.Any) types.Any { return x }
			case 1:
				return "-x", refNeg
			}
			t, v := apiLiteral(r)
			return t, func(types.Any) types.Any { return v }
		}
		a, fa := build(depth - 1)
		b, fb := build(depth - 1)
		switch r.Intn(4) {
		case 0, 1:
			op := []string{"+", "-", "*", "/"}[r.Intn(4)]
			return "(" + a + " " + op + " " + b + ")", func(x types.Any) types.Any {
				va, vb := fa(x), fb(x)
				_, ba := va.(bool)
				_, bb := vb.(bool)
				// booleans take part in arithmetic next to floats only
				_, la := va.([]types.Any)
				_, lb := vb.([]types.Any)
				vRequires(!ba && !bb && !la && !lb)
				return refArith(op, va, vb)
			}
		case 2:
			op := []string{"<", ">", "=", "!=", "<=", ">="}[r.Intn(6)]
			return "(" + a + " " + op + " " + b + ")", func(x types.Any) types.Any { return refCompare(op, fa(x), fb(x)) }
		}
		return "(" + a + ", " + b + ")", func(x types.Any) types.Any { return []types.Any{fa(x), fb(x)} }
	}
	text, f := build(r.Intn(4))
	l, err := ParseLambda("x=>" + text)
	if err != nil {
		vInfo("%s", text)
		panic(err)
	}
	e := apiNew()
	for i := 0; i < 5; i++ {
		var x types.Any = int64(r.Intn(20) - 10)
		if r.Intn(3) == 0 {
			x = float64(r.Intn(20)-10) / 4
		}
		scope := e.scope
		if r.Intn(2) == 0 {
			scope = apiNew().scope
		}
		want := apiText(f(x))
		got := apiText(l.Reduce(context.Background(), scope, []Any{x}))
		if want != got {
			vInfo("%s with x=%s, evaluation %d", text, apiText(x), i+1)
		}
		apiSame("value", want, got)
	}
}

// The same in one scope whose bindings change between the evaluations.
// @contract: C20
// @bounded
func C20_api_rebind(s vSeed) {
	r := apiRand(s)
	lit, v := apiLiteral(r)
	// text, and its value when x is n and d is a dict with k = n
	type form struct {
		text string
		f    func(n int64) types.Any
	}
	forms := []form{
		{"x", func(n int64) types.Any { return n }},
		{"-x", func(n int64) types.Any { return -n }},
		{"d.k", func(n int64) types.Any { return n }},
		{"-d.k", func(n int64) types.Any { return -n }},
		{"(x, d.k, " + lit + ")", func(n int64) types.Any { return []types.Any{n, n, v} }},
		{"x + d.k * 2 - 1", func(n int64) types.Any { return n*3 - 1 }},
		{"x < 3 AND d.k > 0", func(n int64) types.Any { return n < 3 && n > 0 }},
		{"x IN (1, 2, 3)", func(n int64) types.Any { return n >= 1 && n <= 3 }},
		{"l[0]", func(n int64) types.Any { return n }},
		{"l[0:1]", func(n int64) types.Any { return []types.Any{n} }},
		{"NOT x", func(n int64) types.Any { return n <= 0 }},
		{"dict(a=x)", func(n int64) types.Any { return ordereddict.NewDict().Set("a", n) }},
		{"if(condition=x > 2, then=x, else=-x)", func(n int64) types.Any {
			if n > 2 {
				return n
			}
			return -n
		}},
		{"f(a=x)", func(n int64) types.Any { return n + 1 }},
	}
	f := forms[r.Intn(len(forms))]
	vql, err := Parse("SELECT " + f.text + " AS V FROM scope()")
	if err != nil {
		panic(err)
	}
	e := vql.Query.SelectExpression.Expressions[0].Expression
	env := apiNew()
	defer env.scope.Close()
	env.query("LET f(a) = a + 1")
	for i := 0; i < 4; i++ {
		n := int64(r.Intn(12) - 3)
		env.scope.AppendVars(ordereddict.NewDict().Set("x", n).Set("d", ordereddict.NewDict().Set("k", n)).Set("l", []types.Any{n, "z"}))
		vInfo("%s with %d, evaluation %d", f.text, n, i+1)
		got := e.Reduce(context.Background(), env.scope)
		if l, ok := got.(types.LazyExpr); ok {
			got = l.Reduce(context.Background())
		}
		apiSame("value", apiText(f.f(n)), apiText(got))
	}
}

// The same for a column of a query that is run again.
// @contract: C20
// @bounded
func C20_api_query_again(s vSeed) {
	r := apiRand(s)
	t, v := apiLiteral(r)
	e := apiNew()
	for i := 0; i < 1+r.Intn(3); i++ {
		e.rows = append(e.rows, ordereddict.NewDict().Set("X", int64(i)))
	}
	neg := []string{"", "-"}[r.Intn(2)]
	want := func(x int64) string {
		if neg == "-" {
			x = -x
		}
		return apiText(x)
	}
	q := "SELECT " + t + " AS L, " + neg + "X AS S, (" + t + ", " + t + ") AS P FROM src()"
	vInfo("%s over %d rows", q, len(e.rows))
	vql, err := Parse(q)
	if err != nil {
		panic(err)
	}
	for k := 0; k < 3; k++ {
		rows := vCollect(vql.Eval(context.Background(), e.scope))
		vEnsures("one row per source row", len(rows) == len(e.rows))
		for i, row := range rows {
			l, _ := e.col(row, "L")
			x, _ := e.col(row, "S")
			p, _ := e.col(row, "P")
			apiSame("literal", apiText(v), apiText(l))
			apiSame("symbol", want(int64(i)), apiText(x))
			apiSame("list", apiList([]types.Any{v, v}), apiText(p))
		}
	}
}
