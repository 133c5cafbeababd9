package vfilter

import (
	"context"

	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

// C19: delivery of the rows in parts.

var c19source <-chan Row

// Assumed contract of VQL.Eval: any channel of rows.
func c19eval(vql VQL, ctx context.Context, scope types.Scope) <-chan Row { return c19source }

// The encoder checks what it is given: the rows after those it had before.
// @contract: C19
// @covers: vfilter.GetResponseChannel
// @assume: vfilter.VQL.Eval=c19eval
// @opaque: dict.RowToDict
// @norac
func C19_parts(vql *VQL, src <-chan Row, ctx context.Context, scope types.Scope, maxrows, wait int, payload []byte) {
	vRequires(vql != nil && src != nil && vRead(src) == 0)
	c19source = src
	in := vCollect(src)
	limit := maxrows
	if limit < 1 {
		limit = 1
	}
	done := 0 // rows encoded
	sizes := []int{}
	encoder := func(rows []Row) ([]byte, error) {
		n := len(rows)
		vEnsures("no row twice or lost", done+n == vRead(src) || done+n == vRead(src)-1)
		vEnsures("not too many rows", n <= limit)
		base := done
		vEnsures("the next rows", vForall(n, func(j int) bool { return vSame(rows[j], dictOf(ctx, scope, in[base+j])) }))
		done += n
		sizes = append(sizes, n)
		return payload, nil
	}
	vLoopInv(func(rows []Row) bool {
		return done >= 0 && done+len(rows) == vRead(src) && len(rows) <= limit
	})
	vLoopInv(func(rows []Row) bool {
		return vForall(len(rows), func(j int) bool { return vSame(rows[j], dictOf(ctx, scope, in[done+j])) })
	})
	vLoopInv(func(part int, out chan *VFilterJsonResult) bool { return vSent(out) == part && len(sizes) == part })
	vLoopInv(func(out chan *VFilterJsonResult) bool {
		return vForall(vSent(out), func(k int) bool {
			r := vAt(out, k)
			return r != nil && r.Part == k && r.TotalRows == sizes[k]
		})
	})
	got := vCollect(GetResponseChannel(vql, ctx, scope, encoder, maxrows, wait))
	n := len(got)
	vEnsures("a final part", n > 0)
	vEnsures("numbered from zero", vForall(n, func(k int) bool { return got[k].Part == k }))
	vEnsures("every part reports its rows", len(sizes) == n && vForall(n, func(k int) bool { return got[k].TotalRows == sizes[k] }))
	vEnsures("all rows read were delivered", done == vRead(src))
	if !vCancelled() {
		vEnsures("every row", done == len(in))
	}
}

func dictOf(ctx context.Context, scope types.Scope, row Row) Row { return dict.RowToDict(ctx, scope, row) }
