package sort

import (
	"context"
	"sort"

	"www.velocidex.com/golang/vfilter/types"
)

// C11: sorting.

// The sort key of a row: a missing or NULL key counts as the empty string.
func sortKey(scope types.Scope, row types.Row, key string) types.Any {
	v, pres := scope.Associative(row, key)
	if !pres || types.IsNil(v) {
		return ""
	}
	return v
}

// A row comes before another when its key is less, or greater for DESC.
func sortBefore(s *DefaultSorterCtx, a, b types.Row) bool {
	ka, kb := sortKey(s.Scope, a, s.OrderBy), sortKey(s.Scope, b, s.OrderBy)
	if s.Desc {
		return s.Scope.Lt(kb, ka)
	}
	return s.Scope.Lt(ka, kb)
}

// @contract: C11
// @opaque: types.IsNil
// @covers: sort.DefaultSorterCtx.Less sort.DefaultSorterCtx.Len
// @norac
func C11_less(s *DefaultSorterCtx, scope types.Scope, i, j int) {
	vRequires(s != nil)
	s.Scope = scope
	vRequires(0 <= i && i < len(s.Items) && 0 <= j && j < len(s.Items))
	vEnsures("all rows are sorted", s.Len() == len(s.Items))
	vEnsures("by their keys", s.Less(i, j) == sortBefore(s, s.Items[i], s.Items[j]))
}

// @contract: C11
// @covers: sort.DefaultSorterCtx.Swap
// @norac
func C11_swap(s *DefaultSorterCtx, i, j, k int) {
	vRequires(s != nil)
	n := len(s.Items)
	vRequires(0 <= i && i < n && 0 <= j && j < n && 0 <= k && k < n)
	a, b, c := s.Items[i], s.Items[j], s.Items[k]
	s.Swap(i, j)
	vEnsures("no row is lost", len(s.Items) == n)
	vEnsures("exchanged", vSame(s.Items[i], b) && vSame(s.Items[j], a))
	vEnsures("nothing else moves", k == i || k == j || vSame(s.Items[k], c))
}

// What sort.Sort was given and what it left.
var (
	sortCtx   *DefaultSorterCtx
	sortGiven []types.Row
	sortLeft  []types.Row
	sortCalls int
)

// Assumed contract of sort.Sort: it rearranges the rows it is given (through
// the Len, Less and Swap proved above) so that none comes before the row ahead
// of it. Which arrangement that is does not matter to the caller.
func assumedSort(data sort.Interface) {
	s := data.(*DefaultSorterCtx)
	sortCtx = s
	sortGiven = s.Items
	sortLeft = vFresh[[]types.Row]()
	vRequires(len(sortLeft) == len(sortGiven))
	s.Items = sortLeft
	sortCalls++
}

// Sort gives sort.Sort every row it read, in any order, and emits what comes
// back.
// @contract: C11
// @covers: sort.DefaultSorter.Sort
// @assume: sort.Sort=assumedSort
// @norac
func C11_sort(s DefaultSorter, ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) {
	vRequires(input != nil && vRead(input) == 0)
	sortCalls = 0
	vLoopInv(func(c *DefaultSorterCtx, src <-chan types.Row) bool {
		return len(c.Items) == vRead(src) && c.OrderBy == key && c.Desc == desc && vSame(c.Scope, scope)
	})
	vLoopInv(func(c *DefaultSorterCtx, src <-chan types.Row) bool {
		return vForall(vRead(src), func(i int) bool { return vSame(c.Items[i], vAt(src, i)) })
	})
	out := s.Sort(ctx, scope, input, key, desc)
	in, got := vCollect(input), vCollect(out)
	vEnsures("sorted once", sortCalls == 1)
	vEnsures("by the key asked for", sortCtx.OrderBy == key && sortCtx.Desc == desc && vSame(sortCtx.Scope, scope))
	vEnsures("the input rows", len(sortGiven) <= len(in) && vForall(len(sortGiven), func(i int) bool { return vSame(sortGiven[i], in[i]) }))
	vEnsures("emitted as sorted", len(got) <= len(sortLeft) && vForall(len(got), func(i int) bool { return vSame(got[i], sortLeft[i]) }))
	if !vCancelled() {
		vEnsures("all of the input", len(sortGiven) == len(in))
		vEnsures("all of the output", len(got) == len(in))
	}
	vEnsures("the output ends", vClosed(out))
}
