package arg_parser

import (
	"context"
	"reflect"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C17: arguments are checked completely.

// asInt: the integer a value stands for.
func asInt(v types.Any) (int64, bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, true
		}
		return 0, true
	case int:
		return int64(t), true
	case int8:
		return int64(t), true
	case int16:
		return int64(t), true
	case int32:
		return int64(t), true
	case int64:
		return t, true
	case uint8:
		return int64(t), true
	case uint16:
		return int64(t), true
	case uint32:
		return int64(t), true
	case uint64:
		return int64(t), true
	case float64:
		return int64(t), true
	}
	return 0, false
}

// plain: a value the evaluator hands over directly (no pointer to a number,
// no expression).
func plain(v types.Any) bool {
	switch v.(type) {
	case types.LazyExpr, *int, *int8, *int16, *int32, *int64, *uint8, *uint16, *uint32, *uint64, *float64:
		return false
	}
	return true
}

// @contract: C17
// @covers: arg_parser.int64Parser arg_parser.intParser arg_parser.uInt64Parser
func C17_integer(v types.Any, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vRequires(plain(v))
	want, ok := asInt(v)
	a, err := int64Parser(ctx, scope, args, v)
	vEnsures("accepts numbers only", (err == nil) == ok)
	vEnsures("its value", !ok || vSame(a, want))
	b, err := intParser(ctx, scope, args, v)
	vEnsures("int: accepts numbers only", (err == nil) == ok)
	vEnsures("int: its value", !ok || vSame(b, int(want)))
	c, err := uInt64Parser(ctx, scope, args, v)
	vEnsures("uint64: accepts numbers only", (err == nil) == ok)
	vEnsures("uint64: its value", !ok || vSame(c, uint64(want)))
}


// asFloat: the float a value stands for.
func asFloat(v types.Any) (float64, bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, true
		}
		return 0, true
	case int:
		return float64(t), true
	case uint:
		return float64(t), true
	case int8:
		return float64(t), true
	case int16:
		return float64(t), true
	case int32:
		return float64(t), true
	case int64:
		return float64(t), true
	case uint8:
		return float64(t), true
	case uint16:
		return float64(t), true
	case uint32:
		return float64(t), true
	case uint64:
		return float64(t), true
	case float32:
		return float64(t), true
	case float64:
		return t, true
	}
	return 0, false
}

// @contract: C17
// @covers: arg_parser.floatParser utils.ToFloat
func C17_float(v types.Any, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vRequires(plain(v))
	switch v.(type) {
	case *uint, *float32, *bool:
		vRequires(false)
	}
	want, ok := asFloat(v)
	a, err := floatParser(ctx, scope, args, v)
	vEnsures("accepts numbers only", (err == nil) == ok)
	if ok && err == nil {
		f, isf := a.(float64)
		vEnsures("a float", isf)
		vEnsures("its value", vFeq(f, want))
	}
}

// @contract: C17
// @covers: arg_parser.boolParser
// @norac
func C17_bool(v types.Any, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vRequires(plain(v))
	a, err := boolParser(ctx, scope, args, v)
	vEnsures("every value has a truth value", err == nil)
	vEnsures("the truth value", vSame(a, scope.Bool(v)))
}

// @contract: C17
// @covers: arg_parser.stringParser
func C17_string(v types.Any, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vRequires(plain(v))
	switch t := v.(type) {
	case string:
		a, err := stringParser(ctx, scope, args, v)
		vEnsures("a string is itself", err == nil && vSame(a, t))
	case types.Null, *types.Null, nil:
		a, err := stringParser(ctx, scope, args, v)
		vEnsures("NULL is the empty string", err == nil && vSame(a, ""))
	case int64, uint64, int, bool, float64, int32, uint32:
		a, err := stringParser(ctx, scope, args, v)
		_, ok := a.(string)
		vEnsures("a number is a string", err == nil && ok)
	}
}

// A query result of one text column stands for its text.
//
// @contract: C17
// @covers: arg_parser.stringParser arg_parser._ExtractStringArray
func C17_string_list(s string, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vLoopInv(func(result []string) bool {
		return len(result) <= 1 && (len(result) < 1 || result[0] == s)
	})
	a, err := stringParser(ctx, scope, args, []types.Any{s})
	vEnsures("a list of one string is that string", err == nil && vSame(a, s))
}

// @contract: C17
// @covers: arg_parser.sliceAnyParser arg_parser._ExtractAnyArray
func C17_list(l []types.Any, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vLoopInv(func(result []types.Any) bool {
		return len(result) <= len(l) && vForall(len(result), func(k int) bool { return vSame(result[k], l[k]) })
	})
	a, err := sliceAnyParser(ctx, scope, args, l)
	r, ok := a.([]types.Any)
	vEnsures("a list", err == nil && ok)
	vEnsures("all members", len(r) == len(l))
	vEnsures("in order", vForall(len(l), func(k int) bool { return vSame(r[k], l[k]) }))
}

// @contract: C17
// @covers: arg_parser.sliceParser arg_parser._ExtractStringArray
func C17_strings(l []string, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	vLoopInv(func(result []string) bool {
		return len(result) <= len(l) && vForall(len(result), func(k int) bool { return result[k] == l[k] })
	})
	a, err := sliceParser(ctx, scope, args, l)
	r, ok := a.([]string)
	vEnsures("a list", err == nil && ok)
	vEnsures("all members", len(r) == len(l))
	vEnsures("in order", vForall(len(l), func(k int) bool { return r[k] == l[k] }))
}

// @contract: C17
// @covers: arg_parser.sliceAnyParser arg_parser.sliceParser
func C17_single(v types.Any, s string, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	switch v.(type) {
	case nil, string, bool, int64, uint64, float64, types.Null, *ordereddict.Dict:
	default:
		vRequires(false)
	}
	a, err := sliceAnyParser(ctx, scope, args, v)
	r, ok := a.([]types.Any)
	vEnsures("a list of one", err == nil && ok && len(r) == 1 && vSame(r[0], v))
	b, err := sliceParser(ctx, scope, args, s)
	t, ok := b.([]string)
	vEnsures("a list of one string", err == nil && ok && len(t) == 1 && t[0] == s)
}

// @contract: C17
// @covers: arg_parser.dictParser
func C17_dict(v types.Any, ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	switch t := v.(type) {
	case *ordereddict.Dict:
		vRequires(t != nil)
		a, err := dictParser(ctx, scope, args, v)
		vEnsures("a dict is itself", err == nil && vSame(a, v))
	case string, bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64:
		_, err := dictParser(ctx, scope, args, v)
		vEnsures("no other value is taken", err != nil)
	case nil, types.Null:
		a, err := dictParser(ctx, scope, args, v)
		d, ok := a.(*ordereddict.Dict)
		vEnsures("NULL is the empty dict", err == nil && ok && d.Len() == 0)
	}
}

// Parse, for any number of fields.
//
// @contract: C17
// @covers: arg_parser.Parser.Parse
// @opaque: arg_parser.setField
// @norac
// @maypanic
func C17_required(ctx context.Context, scope types.Scope, args *ordereddict.Dict, p *Parser, target reflect.Value) {
	vRequires(args != nil && p != nil)
	vRequires(vForall(len(p.Fields), func(k int) bool { return p.Fields[k] != nil }))
	vLoopInv(func(n int) bool {
		return vForall(n, func(k int) bool {
			if k >= len(p.Fields) {
				return true
			}
			_, pres := args.Get(p.Fields[k].Field)
			return pres || !p.Fields[k].Required
		})
	})
	err := p.Parse(ctx, scope, args, target)
	vEnsures("required fields are present", err != nil || vForall(len(p.Fields), func(k int) bool {
		_, pres := args.Get(p.Fields[k].Field)
		return pres || !p.Fields[k].Required
	}))
}

// c17A, c17B: two coercions of which nothing is known.
func c17A(ctx context.Context, scope types.Scope, args *ordereddict.Dict, v interface{}) (interface{}, error) {
	return v, nil
}

func c17B(ctx context.Context, scope types.Scope, args *ordereddict.Dict, v interface{}) (interface{}, error) {
	return v, nil
}

// Each field takes the value of its own name, through its own coercion.
//
// @contract: C17
// @covers: arg_parser.Parser.Parse
// @opaque: arg_parser.c17A arg_parser.c17B
// @traced: arg_parser.setField
// @norac
// @maypanic
func C17_own_name(ctx context.Context, scope types.Scope, args *ordereddict.Dict, f, g *FieldParser, target reflect.Value) {
	vRequires(args != nil && f != nil && g != nil && f != g)
	f.Parser, g.Parser = c17A, c17B
	n0 := vTraceLen()
	v, fp := args.Get(f.Field)
	w, gp := args.Get(g.Field)
	err := (&Parser{Fields: []*FieldParser{f, g}}).Parse(ctx, scope, args, target)
	if err == nil {
		n := n0
		if fp {
			x, err := c17A(ctx, scope, args, v)
			vEnsures("the first value can be coerced", err == nil)
			vEnsures("the first field", vTraceIs(n, "arg_parser.setField", target.Field(f.FieldIdx), x))
			n++
		}
		if gp {
			x, err := c17B(ctx, scope, args, w)
			vEnsures("the second value can be coerced", err == nil)
			vEnsures("the second field", vTraceIs(n, "arg_parser.setField", target.Field(g.FieldIdx), x))
			n++
		}
		vEnsures("nothing else is set", vTraceLen() == n)
		vEnsures("required", (fp || !f.Required) && (gp || !g.Required))
	}
}

// Every supplied name is declared, for any two names against any two fields.
//
// @contract: C17
// @covers: arg_parser.Parser.Parse utils.InString
// @opaque: arg_parser.setField
// @norac
// @maypanic
func C17_undeclared(ctx context.Context, scope types.Scope, a, b string, v, w types.Any, f, g *FieldParser, target reflect.Value) {
	vRequires(f != nil && g != nil && f.Parser != nil && g.Parser != nil)
	vRequires(f.Field != g.Field)
	args := ordereddict.NewDict().Set(a, v).Set(b, w)
	err := (&Parser{Fields: []*FieldParser{f, g}}).Parse(ctx, scope, args, target)
	vEnsures("declared", err != nil || (a == f.Field || a == g.Field) && (b == f.Field || b == g.Field))
}

// The same for a callee with one parameter, and for one without any.
//
// @contract: C17
// @covers: arg_parser.Parser.Parse utils.InString
// @opaque: arg_parser.setField
// @norac
// @maypanic
func C17_undeclared_few(ctx context.Context, scope types.Scope, a string, v types.Any, f *FieldParser, target reflect.Value) {
	vRequires(f != nil && f.Parser != nil)
	err := (&Parser{Fields: []*FieldParser{f}}).Parse(ctx, scope, ordereddict.NewDict().Set(a, v), target)
	vEnsures("declared", err != nil || a == f.Field)
	err = (&Parser{}).Parse(ctx, scope, ordereddict.NewDict().Set(a, v), target)
	vEnsures("none is declared", err != nil)
	err = (&Parser{}).Parse(ctx, scope, ordereddict.NewDict(), target)
	vEnsures("none is needed", err == nil)
}
