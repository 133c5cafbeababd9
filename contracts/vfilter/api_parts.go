package vfilter

import (
	"context"
	"fmt"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// Delivery in parts, end to end.
// @contract: C19
// @bounded
func C19_api_parts(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	n := r.Intn(12)
	for i := 0; i < n; i++ {
		e.rows = append(e.rows, ordereddict.NewDict().Set("id", int64(i)).Set("x", types.Null{}))
	}
	pause := r.Intn(4) == 0
	e.scope.AppendPlugins(&apiPlugin{"slow", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, out chan<- types.Row) {
		for _, row := range e.rows {
			if pause {
				time.Sleep(time.Duration(100) * time.Microsecond)
			}
			out <- row
		}
	}})
	maxrows := []int{-1, 0, 1, 2, 3, n, n - 1, n + 1, 100}[r.Intn(9)]
	wait := []int{0, 1, 1000}[r.Intn(3)]
	q := "SELECT * FROM slow()"
	var want []types.Row
	for _, row := range e.rows {
		want = append(want, row)
	}
	if r.Intn(3) == 0 {
		q += " WHERE id > 1"
		want = nil
		for i := 2; i < n; i++ {
			want = append(want, e.rows[i])
		}
	}
	vInfo("%s over %d rows, at most %d rows, wait %d", q, n, maxrows, wait)
	vql, err := Parse(q)
	if err != nil {
		panic(err)
	}
	limit := maxrows
	if limit < 1 {
		limit = 1
	}
	var got []types.Row
	part := 0
	for p := range GetResponseChannel(vql, context.Background(), e.scope, func(rows []Row) ([]byte, error) {
		text := ""
		for _, row := range rows {
			text += apiText(row) + ";"
		}
		return []byte(text), nil
	}, maxrows, wait) {
		vEnsures("numbered from zero", p.Part == part)
		part++
		rows := 0
		for text := string(p.Payload); text != ""; rows++ {
			i := 0
			for text[i] != ';' {
				i++
			}
			got = append(got, text[:i])
			text = text[i+1:]
		}
		vEnsures("the number of rows it holds", rows == p.TotalRows)
		vEnsures("not too many rows", rows <= limit)
		if rows > 0 {
			apiSame("columns", `["id" "x"]`, fmt.Sprintf("%q", p.Columns))
		}
	}
	vEnsures("a final part", part > 0)
	var texts []types.Row
	for _, row := range want {
		texts = append(texts, apiText(row))
	}
	apiSame("every row once, in order", apiRows(texts), apiRows(got))
}
