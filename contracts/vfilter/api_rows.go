package vfilter

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// Row sources, against a reference.

// first: the rows of a query, at most n of them.
func (self *apiEnv) first(text string, n int) []types.Row {
	vqls, err := MultiParse(text)
	if err != nil {
		panic(fmt.Sprintf("%s does not parse: %v", text, err))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var out []types.Row
	for r := range vqls[0].Eval(ctx, self.scope) {
		out = append(out, r)
		if len(out) >= n {
			cancel()
			break
		}
	}
	return out
}

// @contract: C18
// @bounded
func C18_api_range(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	edge := func() int64 {
		switch r.Intn(6) {
		case 0:
			return math.MaxInt64 - int64(r.Intn(6))
		case 1:
			return math.MinInt64 + 1 + int64(r.Intn(6))
		}
		return int64(r.Intn(25) - 8)
	}
	start, end, step := edge(), edge(), int64(r.Intn(7)-1)
	if r.Intn(5) == 0 {
		step = edge()
	}
	args := fmt.Sprintf("start=%d, end=%d, step=%d", start, end, step)
	switch r.Intn(6) {
	case 0:
		start, step = 0, 1
		args = fmt.Sprintf("end=%d", end)
	case 1:
		step = 1
		args = fmt.Sprintf("end=%d, start=%d", end, start)
	case 2:
		start = 0
		args = fmt.Sprintf("step=%d, end=%d", step, end)
	}
	const max = 40
	q := "SELECT * FROM range(" + args + ")"
	vInfo("%s", q)
	var want []types.Row
	d := step
	if d == 0 {
		d = 1
	}
	for i := start; d > 0 && i < end && len(want) < max; i += d {
		want = append(want, ordereddict.NewDict().Set("_value", i))
		if end-1-i < d && end-1-i >= 0 {
			break
		}
	}
	apiSame("the sequence", apiRows(want), apiRows(e.first(q, max)))
}

// apiSub: a query and its rows: ids from..from+n-1.
func apiSub(from, n int) (string, []types.Row) {
	var rows []types.Row
	for i := from; i < from+n; i++ {
		rows = append(rows, ordereddict.NewDict().Set("id", int64(i)))
	}
	return fmt.Sprintf("{SELECT _value AS id FROM range(start=%d, end=%d)}", from, from+n), rows
}

// @contract: C18
// @bounded
func C18_api_chain(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	names := []string{"a", "z", "b", "Q", "m", "async_", "c"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var args []string
	var want []types.Row
	for i := 0; i < r.Intn(6); i++ {
		q, rows := apiSub(10*i, r.Intn(4))
		args = append(args, names[i]+"="+q)
		want = append(want, rows...)
	}
	q := "SELECT * FROM chain(" + strings.Join(args, ", ") + ")"
	vInfo("%s", q)
	apiSame("rows in argument order", apiRows(want), apiRows(e.query(q)))
}

// @contract: C18
// @bounded
func C18_api_if(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	conds := []struct {
		text string
		ok   bool
	}{{"TRUE", true}, {"FALSE", false}, {"1", true}, {"0", false}, {"''", false}, {"'x'", true}, {"NULL", false},
		{"1 = 1", true}, {"2 < 1", false}, {"NOT 0", true}, {"ev(n=1)", true}, {"ev(n=2)", false}}
	e.values["1"] = true
	e.values["2"] = types.Null{}
	c := conds[r.Intn(len(conds))]
	then, a := apiSub(0, r.Intn(3))
	other, b := apiSub(10, r.Intn(3))
	q := fmt.Sprintf("SELECT * FROM if(condition=%s, then=%s, else=%s)", c.text, then, other)
	if r.Intn(3) == 0 {
		q = fmt.Sprintf("SELECT * FROM if(then=%s, condition=%s)", then, c.text)
		b = nil
	}
	want := a
	if !c.ok {
		want = b
	}
	vInfo("%s", q)
	apiSame("rows of the chosen branch", apiRows(want), apiRows(e.query(q)))
}

type apiStruct struct{ A int64 }

// apiGenValue: a value, the rows it stands for.
func apiIterable(r *rand.Rand, depth int) (types.Any, []types.Row) {
	wrap := func(v types.Any) types.Row { return ordereddict.NewDict().Set("_value", v) }
	switch r.Intn(13) {
	case 0:
		return nil, nil
	case 1:
		return types.Null{}, nil
	case 2:
		v := int64(r.Intn(5) - 2)
		return v, []types.Row{wrap(v)}
	case 3:
		v := []string{"", "x", "[1]"}[r.Intn(3)]
		return v, []types.Row{wrap(v)}
	case 4:
		v := r.Intn(2) == 0
		return v, []types.Row{wrap(v)}
	case 5:
		d := ordereddict.NewDict()
		for i := 0; i < r.Intn(3); i++ {
			d.Set([]string{"k", "_value", "a"}[r.Intn(3)], int64(i))
		}
		return d, []types.Row{d}
	case 6:
		l := []string{"p", "", "q"}[:r.Intn(4)]
		var rows []types.Row
		for _, x := range l {
			rows = append(rows, wrap(x))
		}
		return l, rows
	case 7:
		l := [2]int64{5, int64(r.Intn(3))}
		return l, []types.Row{wrap(l[0]), wrap(l[1])}
	case 8:
		l := []*ordereddict.Dict{}
		var rows []types.Row
		for i := 0; i < r.Intn(3); i++ {
			d := ordereddict.NewDict().Set("i", int64(i))
			l = append(l, d)
			rows = append(rows, d)
		}
		return l, rows
	case 9:
		l := []int64{1, 2, 3}[:r.Intn(4)]
		var rows []types.Row
		for _, x := range l {
			rows = append(rows, wrap(x))
		}
		return l, rows
	}
	l := []types.Any{}
	var rows []types.Row
	for i := 0; i < r.Intn(5); i++ {
		if depth == 0 {
			x := int64(i)
			l = append(l, x)
			rows = append(rows, wrap(x))
			continue
		}
		v, _ := apiIterable(r, depth-1)
		l = append(l, v)
		switch t := v.(type) {
		case nil, types.Null:
		case *ordereddict.Dict:
			rows = append(rows, t)
		default:
			rows = append(rows, wrap(v))
		}
	}
	return l, rows
}

// @contract: C18
// @bounded
func C18_api_iterate(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	v, want := apiIterable(r, 2)
	vInfo("%T %s", v, apiText(v))
	apiSame("Iterate", apiRows(want), apiRows(vCollect(e.scope.Iterate(context.Background(), v))))
	e.set("Var", v)
	apiSame("FROM foreach", apiRows(want), apiRows(e.query("SELECT * FROM foreach(row=Var)")))
}

// @contract: C18
// @bounded
func C18_api_foreach(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		e.rows = append(e.rows, ordereddict.NewDict().Set("id", int64(i)).Set("l", []types.Any{int64(i), int64(i + 1)}))
	}
	per := r.Intn(4)
	var want []types.Row
	q := "SELECT * FROM foreach("
	ordered := true
	switch r.Intn(4) {
	case 0:
		for i := 0; i < n; i++ {
			want = append(want, ordereddict.NewDict().Set("id", int64(i)))
		}
		q += "row={SELECT dict(id=id) AS D FROM src()}, column='D')"
	case 1:
		q += "row={SELECT * FROM src()})"
		want = append(want, e.rows...)
	default:
		q += fmt.Sprintf("row={SELECT * FROM src()}, query={SELECT id, _value AS n FROM range(start=id, end=id+%d)}", per)
		for i := 0; i < n; i++ {
			for j := 0; j < per; j++ {
				want = append(want, ordereddict.NewDict().Set("id", int64(i)).Set("n", int64(i+j)))
			}
		}
		switch r.Intn(4) {
		case 0:
			q += fmt.Sprintf(", workers=%d", r.Intn(4)+2)
			ordered = false
		case 1:
			q += ", async=TRUE"
			ordered = false
		case 2:
			q += fmt.Sprintf(", workers=%d", r.Intn(4)-2)
		}
		q += ")"
	}
	vInfo("%s over %d rows", q, n)
	got := e.query(q)
	if !ordered {
		apiSort(want)
		apiSort(got)
	}
	apiSame("rows", apiRows(want), apiRows(got))
}

func apiSort(rows []types.Row) {
	sort.Slice(rows, func(i, j int) bool { return apiText(rows[i]) < apiText(rows[j]) })
}

// @contract: C18
// @bounded
func C18_api_flatten(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	var want []types.Row
	for i := 0; i < r.Intn(4); i++ {
		row := ordereddict.NewDict()
		acc := []*ordereddict.Dict{ordereddict.NewDict()}
		for c := 0; c < r.Intn(4); c++ {
			name := fmt.Sprintf("c%d", c)
			v, members := apiIterable(r, 1)
			row.Set(name, v)
			var vals []types.Any
			for _, m := range members {
				x := types.Any(m)
				if y, ok := m.(*ordereddict.Dict).Get("_value"); ok {
					x = y
				}
				vals = append(vals, x)
			}
			if len(vals) == 0 {
				vals = []types.Any{v}
			}
			// later columns vary slowest
			var next []*ordereddict.Dict
			for _, x := range vals {
				for _, d := range acc {
					w := ordereddict.NewDict()
					w.MergeFrom(d)
					next = append(next, w.Set(name, x))
				}
			}
			acc = next
		}
		e.rows = append(e.rows, row)
		for _, d := range acc {
			want = append(want, d)
		}
	}
	vInfo("flatten over %s", apiRows(e.rows))
	apiSame("cross product", apiRows(want), apiRows(e.query("SELECT * FROM flatten(query={SELECT * FROM src()})")))
}
