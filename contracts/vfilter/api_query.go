package vfilter

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// Queries over generated row sources, against a reference.

type apiRow struct {
	id int64
	x  types.Any // int64, or nil when the column is missing
	s  types.Any // string, NULL, or nil when missing
}

func (self apiRow) dict() types.Row {
	d := ordereddict.NewDict().Set("id", self.id)
	if self.x != nil {
		d.Set("x", self.x)
	}
	if self.s != nil {
		d.Set("s", self.s)
	}
	return d
}

func apiGenRows(r *rand.Rand, max int) []apiRow {
	n := r.Intn(max + 1)
	if r.Intn(4) == 0 {
		n = r.Intn(3)
	}
	var out []apiRow
	for i := 0; i < n; i++ {
		row := apiRow{id: int64(i)}
		if r.Intn(8) != 0 {
			row.x = int64(r.Intn(7) - 2)
		}
		switch r.Intn(7) {
		case 0:
			row.s = types.Null{}
		case 1:
		default:
			row.s = []string{"a", "b", "B", "", "ab", "1", "Null"}[r.Intn(7)]
		}
		out = append(out, row)
	}
	return out
}

func (self *apiEnv) load(rows []apiRow) {
	self.rows = nil
	for _, r := range rows {
		self.rows = append(self.rows, r.dict())
	}
}

func apiSource(rows []apiRow) string {
	var p []string
	for _, r := range rows {
		p = append(p, apiText(r.dict()))
	}
	return strings.Join(p, " ")
}

type apiCond struct {
	text string
	f    func(r apiRow) bool
}

func apiInt(v types.Any) (int64, bool) { i, ok := v.(int64); return i, ok }
func apiStr(v types.Any) (string, bool) { s, ok := v.(string); return s, ok }

// Conditions; Y is the alias of id * 2.
func apiGenCond(r *rand.Rand, depth int) apiCond {
	n := int64(r.Intn(6) - 1)
	switch r.Intn(14) {
	case 0:
		return apiCond{fmt.Sprintf("x > %d", n), func(r apiRow) bool { x, ok := apiInt(r.x); return ok && x > n }}
	case 1:
		return apiCond{fmt.Sprintf("x < %d", n), func(r apiRow) bool { x, ok := apiInt(r.x); return ok && x < n }}
	case 2:
		return apiCond{fmt.Sprintf("x = %d", n), func(r apiRow) bool { x, ok := apiInt(r.x); return ok && x == n }}
	case 3:
		return apiCond{fmt.Sprintf("Y > %d", 2*n), func(r apiRow) bool { return r.id > n }}
	case 4:
		return apiCond{"s = 'a'", func(r apiRow) bool { s, ok := apiStr(r.s); return ok && s == "a" }}
	case 5:
		return apiCond{"s =~ 'b'", func(r apiRow) bool {
			s, ok := apiStr(r.s)
			return ok && strings.Contains(strings.ToLower(s), "b")
		}}
	case 6:
		return apiCond{"s", func(r apiRow) bool { s, ok := apiStr(r.s); return ok && s != "" }}
	case 7:
		return apiCond{"x", func(r apiRow) bool { x, ok := apiInt(r.x); return ok && x > 0 }}
	case 8:
		return apiCond{"TRUE", func(r apiRow) bool { return true }}
	case 9:
		return apiCond{[]string{"FALSE", "NULL", "nosuch", "0", "''"}[r.Intn(5)], func(r apiRow) bool { return false }}
	case 10:
		return apiCond{fmt.Sprintf("id IN (1, %d, 7)", n), func(r apiRow) bool { return r.id == 1 || r.id == n || r.id == 7 }}
	}
	if depth == 0 {
		return apiCond{fmt.Sprintf("id != %d", n), func(r apiRow) bool { return r.id != n }}
	}
	a, b := apiGenCond(r, depth-1), apiGenCond(r, depth-1)
	switch r.Intn(3) {
	case 0:
		return apiCond{"(" + a.text + " AND " + b.text + ")", func(r apiRow) bool { return a.f(r) && b.f(r) }}
	case 1:
		return apiCond{"(" + a.text + " OR " + b.text + ")", func(r apiRow) bool { return a.f(r) || b.f(r) }}
	}
	return apiCond{"(NOT (" + a.text + "))", func(r apiRow) bool { return !a.f(r) }}
}

// ---- C10 ----

// apiSelect: a query and its columns.
func apiColumns(r *rand.Rand) (string, func(row apiRow) types.Row) {
	val := func(v types.Any) types.Any {
		if v == nil {
			return types.Null{}
		}
		return v
	}
	all := func(d *ordereddict.Dict, row apiRow) {
		for _, k := range row.dict().(*ordereddict.Dict).Keys() {
			v, _ := row.dict().(*ordereddict.Dict).Get(k)
			d.Set(k, v)
		}
	}
	switch r.Intn(5) {
	case 0:
		return "id * 2 AS Y, id", func(row apiRow) types.Row {
			return ordereddict.NewDict().Set("Y", row.id*2).Set("id", row.id)
		}
	case 1:
		return "*, id * 2 AS Y", func(row apiRow) types.Row {
			d := ordereddict.NewDict()
			all(d, row)
			return d.Set("Y", row.id*2)
		}
	case 2:
		return "id * 2 AS Y, *", func(row apiRow) types.Row {
			d := ordereddict.NewDict().Set("Y", row.id*2)
			all(d, row)
			return d
		}
	case 3:
		return "s, id * 2 AS Y, x, (id, x) AS L", func(row apiRow) types.Row {
			return ordereddict.NewDict().Set("s", val(row.s)).Set("Y", row.id*2).Set("x", val(row.x)).
				Set("L", []types.Any{row.id, val(row.x)})
		}
	}
	return "dict(a=id, b=nosuch) AS D, id * 2 AS Y, 'it' AS C", func(row apiRow) types.Row {
		return ordereddict.NewDict().Set("D", ordereddict.NewDict().Set("a", row.id).Set("b", types.Null{})).
			Set("Y", row.id*2).Set("C", "it")
	}
}

func apiLimit(r *rand.Rand, n int) (string, int) {
	if r.Intn(3) == 0 {
		return "", n
	}
	l := []int{0, 1, 2, 3, n - 1, n, n + 1, 1000000, 1<<31 + 1, 1<<32 + 2, 1<<62 + 1}[r.Intn(11)]
	if l < 0 {
		l = 0
	}
	return fmt.Sprintf(" LIMIT %d", l), min(l, n)
}

// WHERE and LIMIT keep exactly the right rows, in order, however the query is
// reached.
// @contract: C10
// @bounded
func C10_api_rows(s vSeed) {
	r := apiRand(s)
	rows := apiGenRows(r, 12)
	cond := apiGenCond(r, 2)
	where := " WHERE " + cond.text
	if r.Intn(5) == 0 {
		cond, where = apiCond{"", func(apiRow) bool { return true }}, ""
	}
	cols, out := apiColumns(r)
	var want []types.Row
	for _, row := range rows {
		if cond.f(row) {
			want = append(want, out(row))
		}
	}
	lim, n := apiLimit(r, len(want))
	want = want[:n]
	e := apiNew()
	e.load(rows)
	q := "SELECT " + cols + " FROM src()" + where + lim
	switch r.Intn(6) {
	case 0:
		q = "LET q = " + q + " SELECT * FROM q"
	case 1:
		q = "LET q <= " + q + " SELECT * FROM q"
	case 2:
		q = "SELECT * FROM foreach(row={ " + q + " })"
	case 3:
		l2, n2 := apiLimit(r, len(want))
		want = want[:n2]
		q = "LET q = " + q + " SELECT * FROM q" + l2
	case 4:
		q = "SELECT * FROM if(condition=TRUE, then={ " + q + " })"
	}
	vInfo("%s over %s", q, apiSource(rows))
	apiSame("rows", apiRows(want), apiRows(e.query(q)))
}

// A cancelled query has emitted a prefix.
// @contract: C10
// @bounded
func C10_api_cancel(s vSeed) {
	r := apiRand(s)
	rows := apiGenRows(r, 12)
	cond := apiGenCond(r, 1)
	cols, out := apiColumns(r)
	var want []types.Row
	for _, row := range rows {
		if cond.f(row) {
			want = append(want, out(row))
		}
	}
	lim, n := apiLimit(r, len(want))
	want = want[:n]
	stop := r.Intn(len(rows) + 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e := apiNew()
	late := r.Intn(2) == 0
	e.scope.AppendPlugins(&apiPlugin{"src2", func(c context.Context, scope types.Scope, args *ordereddict.Dict, out chan<- types.Row) {
		for i, row := range rows {
			if i == stop {
				cancel()
				if !late {
					<-c.Done()
				}
			}
			select {
			case <-c.Done():
				return
			case out <- row.dict():
			}
		}
	}})
	q := "SELECT " + cols + " FROM src2() WHERE " + cond.text + lim
	vInfo("%s over %s, cancelled before row %d", q, apiSource(rows), stop)
	vql, err := Parse(q)
	if err != nil {
		panic(err)
	}
	got := vCollect(vql.Eval(ctx, e.scope))
	if len(got) > len(want) {
		vEnsures("no more rows than the full result", false)
	}
	apiSame("a prefix", apiRows(want[:len(got)]), apiRows(got))
}

// ---- C11 ----

type apiKey struct {
	v types.Any // nil: missing
}

// Keys that can be compared with each other.
func apiGenKeys(r *rand.Rand, n int) []types.Any {
	var out []types.Any
	kind := r.Intn(3)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			out = append(out, int64(r.Intn(9)-4))
		case 1:
			if r.Intn(2) == 0 {
				out = append(out, int64(r.Intn(9)-4))
			} else {
				out = append(out, float64(r.Intn(17)-8)/2)
			}
		case 2:
			switch r.Intn(6) {
			case 0:
				out = append(out, types.Null{})
			case 1:
				out = append(out, nil)
			default:
				out = append(out, []string{"", "a", "A", "b", "ab", "0", "é", "\x01"}[r.Intn(8)])
			}
		}
	}
	return out
}

func apiKeyLess(a, b types.Any) bool {
	num := func(v types.Any) (float64, bool) {
		switch t := v.(type) {
		case int64:
			return float64(t), true
		case float64:
			return t, true
		}
		return 0, false
	}
	if x, ok := num(a); ok {
		y, _ := num(b)
		return x < y
	}
	str := func(v types.Any) string { s, _ := v.(string); return s }
	return str(a) < str(b)
}

// @contract: C11
// @bounded
// @weight: 2
func C11_api_order(s vSeed) {
	r := apiRand(s)
	n := r.Intn(12)
	if r.Intn(4) == 0 {
		n = 12 + r.Intn(60)
	}
	if r.Intn(200) == 0 {
		n = 8000 + r.Intn(10000)
	}
	keys := apiGenKeys(r, n)
	e := apiNew()
	for i, k := range keys {
		d := ordereddict.NewDict().Set("id", int64(i))
		if k != nil {
			d.Set("k", k)
		}
		e.rows = append(e.rows, d)
	}
	desc := r.Intn(2) == 0
	dir := ""
	if desc {
		dir = " DESC"
	}
	where, keep := "", func(id int64) bool { return true }
	if r.Intn(3) == 0 {
		where, keep = " WHERE id != 2 AND id < 9", func(id int64) bool { return id != 2 && id < 9 }
	}
	var in []int64
	for i := range keys {
		if keep(int64(i)) {
			in = append(in, int64(i))
		}
	}
	lim, m := apiLimit(r, len(in))
	cols := []string{"*", "id, k", "id"}[r.Intn(3)]
	if cols == "id" {
		cols = "id, k AS kk"
	}
	key := "k"
	if strings.HasSuffix(cols, "kk") {
		key = "kk"
	}
	q := "SELECT " + cols + " FROM src()" + where + " ORDER BY " + key + dir + lim
	if r.Intn(4) == 0 {
		q = "LET q = " + q + " SELECT * FROM q"
	}
	vInfo("%s over keys %s", q, apiList(keys))
	rows := e.query(q)
	vInfo("got %s", apiRows(rows))
	vEnsures("the right number of rows", len(rows) == m)
	seen := map[int64]bool{}
	var order []types.Any
	for _, row := range rows {
		idv, _ := e.col(row, "id")
		id, ok := idv.(int64)
		vEnsures("an input row", ok && id >= 0 && id < int64(n) && keep(id))
		vEnsures("once", !seen[id])
		seen[id] = true
		order = append(order, keys[id])
	}
	for i := 1; i < len(order); i++ {
		a, b := order[i-1], order[i]
		if desc {
			a, b = b, a
		}
		vEnsures("in the requested order", !apiKeyLess(b, a))
	}
	// LIMIT keeps the first ones of the ordered result
	var all []types.Any
	for _, id := range in {
		all = append(all, keys[id])
	}
	sort.SliceStable(all, func(i, j int) bool {
		if desc {
			return apiKeyLess(all[j], all[i])
		}
		return apiKeyLess(all[i], all[j])
	})
	for i := range order {
		vEnsures("the first ones", !apiKeyLess(order[i], all[i]) && !apiKeyLess(all[i], order[i]))
	}
}

// ---- C12, C13 ----

type apiAgg struct {
	text string
	f    func(rows []apiRow) types.Any // rows of the bin up to and with the current one
}

func apiAggs() []apiAgg {
	least := func(less bool) func([]apiRow) types.Any {
		return func(rows []apiRow) types.Any {
			var best types.Any = types.Null{}
			for _, r := range rows {
				x, ok := apiInt(r.x)
				if !ok {
					continue
				}
				b, ok := best.(int64)
				if !ok || less && x < b || !less && x > b {
					best = x
				}
			}
			return best
		}
	}
	sum := func(rows []apiRow) types.Any {
		n := int64(0)
		for _, r := range rows {
			n += r.id
		}
		return n
	}
	enum := func(rows []apiRow) types.Any {
		var out []types.Any
		for _, r := range rows {
			out = append(out, r.id)
		}
		return out
	}
	return []apiAgg{
		{"count()", func(rows []apiRow) types.Any { return uint64(len(rows)) }},
		{"count(items=x)", func(rows []apiRow) types.Any { return uint64(len(rows)) }},
		{"sum(item=id)", sum},
		{"enumerate(items=id)", enum},
		{"enumerate(items=x)", func(rows []apiRow) types.Any {
			var out []types.Any
			for _, r := range rows {
				out = append(out, r.x)
			}
			return out
		}},
		{"sum(item=id * 4503599627370496 + 1)", func(rows []apiRow) types.Any {
			return sum(rows).(int64)*4503599627370496 + int64(len(rows))
		}},
		{"min(item=x)", least(true)},
		{"max(item=x)", least(false)},
		{"sum(item=id) + 1", func(rows []apiRow) types.Any { return sum(rows).(int64) + 1 }},
		{"sum(item=id * 2)", func(rows []apiRow) types.Any { return sum(rows).(int64) * 2 }},
		{"max(item=x) - min(item=x)", func(rows []apiRow) types.Any {
			a, ok1 := least(false)(rows).(int64)
			b, ok2 := least(true)(rows).(int64)
			if !ok1 || !ok2 {
				return types.Null{}
			}
			return a - b
		}},
	}
}

func apiPickAggs(r *rand.Rand) (string, func(rows []apiRow, d *ordereddict.Dict)) {
	all := apiAggs()
	var text []string
	var picked []apiAgg
	for i := 0; i < 1+r.Intn(4); i++ {
		a := all[r.Intn(len(all))]
		picked = append(picked, a)
		text = append(text, fmt.Sprintf("%s AS A%d", a.text, i))
	}
	return strings.Join(text, ", "), func(rows []apiRow, d *ordereddict.Dict) {
		for i, a := range picked {
			d.Set(fmt.Sprintf("A%d", i), a.f(rows))
		}
	}
}

// The text that names a bin.
func apiBinName(v types.Any) string {
	switch t := v.(type) {
	case int64:
		return fmt.Sprint(t)
	case string:
		return t
	}
	return "Null"
}

// @contract: C12
// @bounded
// @weight: 2
func C12_api_group(s vSeed) {
	r := apiRand(s)
	rows := apiGenRows(r, 14)
	cond := apiGenCond(r, 1)
	where := " WHERE " + cond.text
	if r.Intn(2) == 0 {
		cond, where = apiCond{"", func(apiRow) bool { return true }}, ""
	}
	key, keyOf := "s", func(row apiRow) string { return apiBinName(row.s) }
	switch r.Intn(4) {
	case 0:
		key, keyOf = "x", func(row apiRow) string { return apiBinName(row.x) }
	case 1:
		key, keyOf = "id > 3", func(row apiRow) string { return fmt.Sprint(row.id > 3) }
	case 2:
		key, keyOf = "1", func(row apiRow) string { return "1" }
	}
	aggs, eval := apiPickAggs(r)
	var order []string
	bins := map[string][]apiRow{}
	for _, row := range rows {
		if !cond.f(row) {
			continue
		}
		k := keyOf(row)
		if bins[k] == nil {
			order = append(order, k)
		}
		bins[k] = append(bins[k], row)
	}
	var want []types.Row
	for _, k := range order {
		b := bins[k]
		d := ordereddict.NewDict().Set("Y", b[len(b)-1].id*2)
		eval(b, d)
		want = append(want, d)
	}
	lim, n := apiLimit(r, len(want))
	want = want[:n]
	e := apiNew()
	e.load(rows)
	q := "SELECT id * 2 AS Y, " + aggs + " FROM src()" + where + " GROUP BY " + key + lim
	switch r.Intn(4) {
	case 0:
		q = "LET q = " + q + " SELECT * FROM q"
	case 1:
		q = "SELECT * FROM foreach(row={ " + q + " })"
	}
	vInfo("%s over %s", q, apiSource(rows))
	// the state of one evaluation is not seen by the next
	for i := 0; i < 2; i++ {
		apiSame("groups", apiRows(want), apiRows(e.query(q)))
	}
}

// A grouped query whose groups are ordered.
// @contract: C12
// @bounded
func C12_api_order(s vSeed) {
	r := apiRand(s)
	rows := apiGenRows(r, 14)
	e := apiNew()
	e.load(rows)
	sums := map[string]int64{}
	for _, row := range rows {
		sums[apiBinName(row.s)] += row.id
	}
	var want []int64
	for _, v := range sums {
		want = append(want, v)
	}
	desc := r.Intn(2) == 0
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] != desc })
	q := "SELECT sum(item=id) AS S FROM src() GROUP BY s ORDER BY S"
	if desc {
		q += " DESC"
	}
	var w []types.Any
	for _, v := range want {
		w = append(w, v)
	}
	vInfo("%s over %s", q, apiSource(rows))
	if len(want) > 1 {
		for i := 1; i < len(want); i++ {
			vRequires(want[i] != want[i-1])
		}
	}
	apiSame("ordered groups", apiList(w), apiList(e.cols(e.query(q), "S")))
}

// Without grouping an aggregate shows the fold of the rows so far.
// @contract: C13
// @bounded
// @weight: 2
func C13_api_running(s vSeed) {
	r := apiRand(s)
	rows := apiGenRows(r, 10)
	aggs, eval := apiPickAggs(r)
	cond := apiGenCond(r, 0)
	where := " WHERE " + cond.text
	if r.Intn(2) == 0 {
		cond, where = apiCond{"", func(apiRow) bool { return true }}, ""
	}
	var want []types.Row
	var sofar []apiRow
	for _, row := range rows {
		if !cond.f(row) {
			continue
		}
		sofar = append(sofar, row)
		d := ordereddict.NewDict().Set("Y", row.id*2)
		eval(sofar, d)
		want = append(want, d)
	}
	e := apiNew()
	e.load(rows)
	q := "SELECT id * 2 AS Y, " + aggs + " FROM src()" + where
	vInfo("%s over %s", q, apiSource(rows))
	apiSame("running values", apiRows(want), apiRows(e.query(q)))
}

// min and max under the query's ordering, with items of several kinds.
// @contract: C13
// @bounded
func C13_api_extreme(s vSeed) {
	r := apiRand(s)
	keys := apiGenKeys(r, r.Intn(9))
	e := apiNew()
	for i, k := range keys {
		d := ordereddict.NewDict().Set("id", int64(i))
		if k != nil {
			d.Set("k", k)
		}
		e.rows = append(e.rows, d)
	}
	q := "SELECT min(item=k) AS Min, max(item=k) AS Max FROM src() GROUP BY 1"
	vInfo("%s over keys %s", q, apiList(keys))
	rows := e.query(q)
	vInfo("got %s", apiRows(rows))
	if len(keys) == 0 {
		vEnsures("no rows", len(rows) == 0)
		return
	}
	vEnsures("one row", len(rows) == 1)
	lo, _ := e.col(rows[0], "Min")
	hi, _ := e.col(rows[0], "Max")
	some, hasLo, hasHi := false, false, false
	for _, k := range keys {
		if k == nil || types.IsNil(k) {
			continue
		}
		some = true
		hasLo = hasLo || apiText(k) == apiText(lo)
		hasHi = hasHi || apiText(k) == apiText(hi)
		vEnsures("nothing is less than min", !types.IsNil(lo) && !apiKeyLess(k, lo))
		vEnsures("nothing is greater than max", !types.IsNil(hi) && !apiKeyLess(hi, k))
	}
	if some {
		vEnsures("items", hasLo && hasHi)
	} else {
		vEnsures("NULL when there is no item", types.IsNil(lo) && types.IsNil(hi))
	}
}

// ---- C14 ----

// @contract: C14
// @bounded
// @weight: 2
func C14_api_lazy(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	ctx := context.Background()
	row := NewLazyRow(ctx, e.scope)
	ran := map[string]int{}
	var order []string
	want := map[string]types.Any{}
	var ops []string
	names := []string{"a", "b", "A", "c d", "", "e"}
	for i := 0; i < 14; i++ {
		k := names[r.Intn(len(names))]
		_, known := want[k]
		switch op := r.Intn(8); {
		case op < 2 && !known:
			var v types.Any = int64(i)
			switch r.Intn(4) {
			case 0:
				v = types.Null{}
			case 1:
				v = nil
			}
			ops = append(ops, fmt.Sprintf("add %q", k))
			n := 0
			row.AddColumn(k, func(ctx context.Context, scope types.Scope) types.Any {
				ran[k]++
				n++
				if n > 1 {
					return "again"
				}
				return v
			})
			order = append(order, k)
			want[k] = v
		case op < 5:
			ops = append(ops, fmt.Sprintf("get %q", k))
			v, ok := row.Get(k)
			vInfoOnce(ops)
			vEnsures("known exactly when added", ok == known)
			if known {
				apiSame("value of the first evaluation", apiText(want[k]), apiText(v))
				vEnsures("evaluated once", ran[k] == 1)
			}
		case op == 5:
			before := ran[k]
			vInfoOnce(ops)
			vEnsures("Has", row.Has(k) == known)
			vEnsures("Has evaluates nothing", ran[k] == before)
		case op == 6:
			ops = append(ops, "columns")
			vInfoOnce(ops)
			apiSame("columns in order", fmt.Sprintf("%q", order), fmt.Sprintf("%q", append([]string(nil), row.Columns()...)))
		case op == 7 && r.Intn(2) == 0:
			ops = append(ops, "materialize")
			d := MaterializedLazyRow(ctx, row, e.scope)
			w := ordereddict.NewDict()
			for _, k := range order {
				w.Set(k, want[k])
			}
			vInfoOnce(ops)
			apiSame("materialized", apiText(w), apiText(d))
			for _, k := range order {
				vEnsures("evaluated once", ran[k] == 1)
			}
		}
	}
}

func vInfoOnce(ops []string) {
	vInfoText = nil
	vInfo("%s", strings.Join(ops, ", "))
}

// Columns of a query: each expression runs at most once for a row, exactly
// once when the row is emitted, and the columns keep their order.
// @contract: C14
// @bounded
// @weight: 2
func C14_api_query(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	var mu sync.Mutex
	ran := map[string]int{}
	e.scope.AppendFunctions(&apiFunc{"once", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		mu.Lock()
		defer mu.Unlock()
		c, _ := args.Get("c")
		i, _ := args.Get("i")
		if l, ok := c.(types.LazyExpr); ok {
			c = l.Reduce(ctx)
		}
		if l, ok := i.(types.LazyExpr); ok {
			i = l.Reduce(ctx)
		}
		k := fmt.Sprintf("%v/%v", c, i)
		ran[k]++
		if ran[k] > 1 {
			return "again"
		}
		if r := i.(int64); r%3 == 0 {
			return types.Null{}
		}
		return k
	}})
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		e.rows = append(e.rows, ordereddict.NewDict().Set("id", int64(i)).Set("B", "source"))
	}
	names := []string{"A", "B", "C", "D", "E"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:1+r.Intn(4)]
	star := -1
	if r.Intn(3) == 0 {
		star = r.Intn(len(names) + 1)
	}
	var cols []string
	for i, c := range names {
		if i == star {
			cols = append(cols, "*")
		}
		cols = append(cols, fmt.Sprintf("once(c='%s', i=id) AS %s", c, c))
	}
	if star == len(names) {
		cols = append(cols, "*")
	}
	where := ""
	keep := func(i int) bool { return true }
	switch r.Intn(4) {
	case 0:
		c := names[r.Intn(len(names))]
		where = fmt.Sprintf(" WHERE %s OR %s OR TRUE", c, c)
	case 1:
		c := names[r.Intn(len(names))]
		where = fmt.Sprintf(" WHERE %s = '%s/1' OR %s = '%s/2' OR %s = '%s/4'", c, c, c, c, c, c)
		keep = func(i int) bool { return i == 1 || i == 2 || i == 4 }
	case 2:
		where = " WHERE id != 2"
		keep = func(i int) bool { return i != 2 }
	}
	q := "SELECT " + strings.Join(cols, ", ") + " FROM src()" + where
	vInfo("%s over %d rows", q, n)
	rows := e.query(q)
	var want []types.Row
	for i := 0; i < n; i++ {
		if !keep(i) {
			continue
		}
		d := ordereddict.NewDict()
		val := func(c string) types.Any {
			if i%3 == 0 {
				return types.Null{}
			}
			return fmt.Sprintf("%s/%d", c, i)
		}
		src := func() {
			for _, k := range []string{"id", "B"} {
				if _, has := d.Get(k); has {
					continue
				}
				if k == "id" {
					d.Set(k, int64(i))
				} else {
					d.Set(k, "source")
				}
			}
		}
		for j, c := range names {
			if j == star {
				src()
			}
			d.Set(c, val(c)) // moves to the end
		}
		if star == len(names) {
			src()
		}
		want = append(want, d)
	}
	apiSame("rows", apiRows(want), apiRows(rows))
	for _, c := range names {
		for i := 0; i < n; i++ {
			k := ran[fmt.Sprintf("%s/%d", c, i)]
			if keep(i) {
				vEnsures("run once", k == 1)
			} else {
				vEnsures("run at most once", k <= 1)
			}
		}
	}
}
