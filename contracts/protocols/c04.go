package protocols

import (
	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C04: indexing and slicing.

// The bound in use: counted from the end when negative, clamped to [0,n].
func c04Clamp(i, n int64) int64 {
	if i < 0 {
		i = n + i
	}
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

// @contract: C04
// @covers: protocols.AssociativeDispatcher.Associative protocols.DefaultAssociative.Associative utils.ToInt64 utils.ToString
func C04_index_list(scope types.Scope, l []types.Any, b types.Any) {
	x := sNumOf(b)
	vRequires(x.ok && l != nil)
	n := int64(len(l))
	i := x.i
	if i < 0 {
		i += n
	}
	got, pres := (&AssociativeDispatcher{}).Associative(scope, l, b)
	if i >= 0 && i < n {
		vCover("inside")
		vEnsures("the element at that position", vSame(got, l[i]))
		vEnsures("is present", pres)
	} else {
		vCover("outside")
		vEnsures("no element gives NULL", sIsNull(got) && !pres)
	}
}

// @contract: C04
// @covers: protocols.AssociativeDispatcher.Associative protocols.DefaultAssociative.Associative
func C04_index_string(scope types.Scope, s string, b types.Any) {
	x := sNumOf(b)
	vRequires(x.ok)
	n := int64(len(s))
	i := x.i
	if i < 0 {
		i += n
	}
	got, pres := (&AssociativeDispatcher{}).Associative(scope, s, b)
	if i >= 0 && i < n {
		vCover("inside")
		vEnsures("the byte at that position", vSame(got, s[i]) && pres)
	} else {
		vCover("outside")
		vEnsures("no element gives NULL", sIsNull(got) && !pres)
	}
}

// @contract: C04
// @covers: protocols.AssociativeDispatcher.Associative protocols.DefaultAssociative.Associative protocols.getRanges
func C04_slice_string(scope types.Scope, s string, lo, hi *int64) {
	n := int64(len(s))
	from, to := int64(0), n
	if lo != nil {
		from = c04Clamp(*lo, n)
	}
	if hi != nil {
		to = c04Clamp(*hi, n)
	}
	got, pres := (&AssociativeDispatcher{}).Associative(scope, s, []*int64{lo, hi})
	if from >= to {
		vCover("empty")
		vEnsures("crossed bounds give the empty string", vSame(got, "") && pres)
	} else {
		vCover("some")
		vEnsures("the bytes between the bounds", vSame(got, s[from:to]) && pres)
	}
}

// @contract: C04
// @covers: protocols.AssociativeDispatcher.Associative protocols.DefaultAssociative.Associative protocols.getRanges
func C04_slice_list(scope types.Scope, l []types.Any, lo, hi *int64) {
	vRequires(l != nil)
	n := int64(len(l))
	from, to := int64(0), n
	if lo != nil {
		from = c04Clamp(*lo, n)
	}
	if hi != nil {
		to = c04Clamp(*hi, n)
	}
	vLoopInv(func(i int64, result []types.Any) bool {
		return i >= from && i <= to && int64(len(result)) == i-from && vForall(len(result), func(k int) bool {
			return vSame(result[k], l[from+int64(k)])
		})
	})
	got, pres := (&AssociativeDispatcher{}).Associative(scope, l, []*int64{lo, hi})
	res, ok := sList(got)
	vEnsures("a list", ok && pres)
	if from >= to {
		vCover("empty")
		vEnsures("crossed bounds give the empty list", len(res) == 0)
		return
	}
	vCover("some")
	vEnsures("as many elements as between the bounds", int64(len(res)) == to-from)
	vEnsures("exactly the elements between the bounds in order", vForall(len(res), func(k int) bool {
		return vSame(res[k], l[from+int64(k)])
	}))
}

// @contract: C04
// @covers: protocols.AssociativeDispatcher.Associative
func C04_dict(d AssociativeDispatcher, scope types.Scope, m *ordereddict.Dict, key string) {
	vRequires(m != nil && (len(key) == 0 || key[0] != '@'))
	want, there := m.Get(key)
	got, pres := (&d).Associative(scope, m, key)
	if there {
		vCover("key")
		vEnsures("the value of the key", pres && (vSame(got, want) || sIsNull(got) && types.IsNil(want)))
	} else {
		vCover("no key")
		vEnsures("absent, with the default", !pres && vSame(got, m.GetDefault()))
	}
}

// @contract: C04
// @covers: protocols.AssociativeDispatcher.Associative
func C04_of_null(d AssociativeDispatcher, scope types.Scope, a, b types.Any) {
	vRequires(sIsNull(a))
	got, _ := (&d).Associative(scope, a, b)
	vEnsures("every element of NULL is NULL", sIsNull(got))
}

// @contract: C04
// @covers: protocols.DefaultAssociative.Associative
func C04_scalar(scope types.Scope, a types.Any, b types.Any) {
	vRequires(sNumOf(a).ok && (sNumOf(b).ok || sIsNull(b)))
	got, pres := (&AssociativeDispatcher{}).Associative(scope, a, b)
	vEnsures("a number has no elements", sIsNull(got) && !pres)
}
