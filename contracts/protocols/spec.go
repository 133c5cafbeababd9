package protocols

// Shared specification functions: the value model of VQL, written
// independently of the code under verification.

import (
	"time"

	"www.velocidex.com/golang/vfilter/types"
)

// sNum is the numeric reading of a value.
type sNum struct {
	ok  bool // is a number (or boolean)
	isF bool // is a float
	i   int64
	f   float64
}

func sNumOf(x types.Any) sNum {
	switch t := x.(type) {
	case bool:
		if t {
			return sNum{true, false, 1, 1}
		}
		return sNum{true, false, 0, 0}
	case int:
		return sNum{true, false, int64(t), float64(t)}
	case int8:
		return sNum{true, false, int64(t), float64(t)}
	case int16:
		return sNum{true, false, int64(t), float64(t)}
	case int32:
		return sNum{true, false, int64(t), float64(t)}
	case int64:
		return sNum{true, false, t, float64(t)}
	case uint8:
		return sNum{true, false, int64(t), float64(t)}
	case uint16:
		return sNum{true, false, int64(t), float64(t)}
	case uint32:
		return sNum{true, false, int64(t), float64(t)}
	case uint64:
		return sNum{true, false, int64(t), float64(t)}
	case float64:
		return sNum{true, true, int64(t), t}
	}
	return sNum{}
}

func sIsBool(x types.Any) bool {
	_, ok := x.(bool)
	return ok
}

func sIsNull(x types.Any) bool {
	switch x.(type) {
	case nil, types.Null, *types.Null:
		return true
	}
	return false
}

func sIsStr(x types.Any) bool {
	_, ok := x.(string)
	return ok
}

func sIsTime(x types.Any) bool {
	_, ok := x.(time.Time)
	return ok
}

// sScalar: a plain VQL scalar (NULL, boolean, integer, float, string).
func sScalar(x types.Any) bool {
	return sIsNull(x) || sNumOf(x).ok || sIsStr(x)
}

// sList: the list type VQL itself builds.
func sList(x types.Any) ([]types.Any, bool) {
	t, ok := x.([]types.Any)
	return t, ok
}

func sIsLazy(x types.Any) bool {
	_, ok := x.(types.LazyExpr)
	return ok
}

// sNumericCast: the values that the dispatchers treat like numbers besides
// the VQL ones (host pointers to numbers, uint, float32).
func sNumericCast(x types.Any) bool {
	switch x.(type) {
	case uint, float32, *float64, *int, *uint, *int8, *int16, *int32, *int64,
		*uint8, *uint16, *uint32, *uint64:
		return true
	}
	return false
}
