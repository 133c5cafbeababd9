package vfilter

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// C17 on the public interface: arguments are checked completely.

type apiKind string

type apiArgs struct {
	Name   string              `vfilter:"required,field=name,doc=A name."`
	Count  int64               `vfilter:"required,field=count"`
	Ignore string
	Flag   bool                `vfilter:"optional,field=flag"`
	Ratio  float64             `vfilter:"optional,field=ratio"`
	Small  float32             `vfilter:"optional,field=small"`
	Num    int                 `vfilter:"optional,field=num"`
	Size   uint64              `vfilter:"optional,field=size"`
	Names  []string            `vfilter:"optional,field=names"`
	Items  []types.Any         `vfilter:"optional,field=items"`
	Env    *ordereddict.Dict   `vfilter:"optional,field=env"`
	Dicts  []*ordereddict.Dict `vfilter:"optional,field=dicts"`
	Any    types.Any           `vfilter:"optional,field=any"`
	Kind   apiKind             `vfilter:"optional,field=kind"`
	Kinds  []apiKind           `vfilter:"optional,field=kinds"`
	Query  types.StoredQuery   `vfilter:"optional,field=query"`
	Lazy   types.LazyExpr      `vfilter:"optional,field=lazy"`
	hidden string
	Plain  string              `vfilter:"optional"`
}

var apiArgNames = []string{"name", "count", "flag", "ratio", "small", "num", "size",
	"names", "items", "env", "dicts", "any", "kind", "kinds", "query", "lazy", "Plain"}

var apiNotNames = []string{"extra", "Name", "COUNT", "ignore", "Ignore", "hidden", "nam", "name ", "plain"}

func apiNumber(v types.Any) (i int64, f float64, ok bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, 1, true
		}
		return 0, 0, true
	case int:
		return int64(t), float64(t), true
	case int32:
		return int64(t), float64(t), true
	case int64:
		return t, float64(t), true
	case uint8:
		return int64(t), float64(t), true
	case uint64:
		return int64(t), float64(t), true
	case float64:
		return int64(t), t, true
	}
	return 0, 0, false
}

// apiCoerce: what an argument means for a field. known: the reference says
// what the field holds (otherwise only that the call neither fails nor panics).
func apiCoerce(scope types.Scope, field string, v types.Any) (res interface{}, ok, known bool) {
	i, f, num := apiNumber(v)
	switch field {
	case "name", "Plain", "kind":
		str, ok := "", true
		switch t := v.(type) {
		case string:
			str = t
		case []byte:
			str = string(t)
		case int, int32, int64, uint8, uint64, float64, bool:
			str = fmt.Sprint(v)
		case types.Null, *types.Null, nil:
		case []types.Any:
			if len(t) == 1 {
				if s, is := t[0].(string); is {
					str = s
					break
				}
			}
			ok = false
		default:
			ok = false
		}
		if field == "kind" {
			return apiKind(str), true, ok
		}
		return str, true, ok

	case "count":
		return i, num, num
	case "num":
		return int(i), num, num
	case "size":
		return uint64(i), num, num
	case "ratio":
		return f, num, num
	case "small":
		return float32(f), num, num
	case "flag":
		return scope.Bool(v), true, true

	case "any":
		return v, true, v != nil

	case "names", "kinds":
		list := []string{}
		switch t := v.(type) {
		case string:
			list = append(list, t)
		case int64:
			list = append(list, fmt.Sprint(t))
		case []types.Any:
			for _, m := range t {
				d, is := m.(*ordereddict.Dict)
				if is && d.Len() == 1 {
					m, _ = d.Get(d.Keys()[0])
					if _, is := m.(string); !is {
						return nil, true, false
					}
				}
				s, is := m.(string)
				if _, isnum := m.(int64); isnum {
					s, is = fmt.Sprint(m), true
				}
				if !is {
					return nil, true, false
				}
				list = append(list, s)
			}
		default:
			return nil, true, false
		}
		if field == "kinds" {
			kinds := []apiKind{}
			for _, s := range list {
				kinds = append(kinds, apiKind(s))
			}
			return kinds, true, true
		}
		return list, true, true

	case "items":
		switch t := v.(type) {
		case []types.Any:
			return t, true, true
		case []byte, nil:
			return nil, true, false
		}
		return []types.Any{v}, true, true

	case "env":
		switch t := v.(type) {
		case *ordereddict.Dict:
			return t, true, true
		case []types.Any:
			return nil, true, false
		case types.Null, *types.Null, nil:
			return ordereddict.NewDict(), true, true
		}
		return nil, false, false

	case "dicts":
		switch t := v.(type) {
		case *ordereddict.Dict:
			return []*ordereddict.Dict{t}, true, true
		case []types.Any:
			res := []*ordereddict.Dict{}
			for _, m := range t {
				if types.IsNil(m) {
					continue
				}
				d, is := m.(*ordereddict.Dict)
				if !is {
					return nil, true, false
				}
				res = append(res, d)
			}
			return res, true, true
		}
		return nil, true, false
	}
	return nil, true, false
}

func apiArgValue(r *rand.Rand) types.Any {
	one := ordereddict.NewDict().Set("only", "single")
	two := ordereddict.NewDict().Set("a", int64(1)).Set("b", "x")
	pool := []types.Any{
		"", "hello", "7", "NULL", int64(0), int64(1), int64(-1), int64(1 << 40), int64(-1 << 63),
		int(5), int32(-4), uint8(200), uint64(1 << 40), 0.0, 0.5, -1.5, 1e18, true, false,
		types.Null{}, &types.Null{}, nil, []byte("by"), one, two, ordereddict.NewDict(),
		[]types.Any{}, []types.Any{"x"}, []types.Any{"x", "y", "x"}, []types.Any{one}, []types.Any{one, "z", one},
		[]types.Any{two, types.Null{}, one}, []types.Any{int64(1), "b"}, []types.Any{types.Null{}},
		[]types.Any{[]types.Any{"n"}}, []types.Any{0.5, true},
	}
	return pool[r.Intn(len(pool))]
}

func apiFields(target reflect.Value) map[string]interface{} {
	res := map[string]interface{}{}
	i := 0
	for _, n := range apiArgNames {
		for target.Type().Field(i).Tag == "" {
			i++
		}
		res[n] = target.Field(i).Interface()
		i++
	}
	return res
}

func apiDeepSame(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() && y.IsValid() && x.Kind() == reflect.Slice && y.Kind() == reflect.Slice &&
		x.Len() == 0 && y.Len() == 0 {
		return x.Type() == y.Type()
	}
	if p, ok := a.(*ordereddict.Dict); ok {
		q, ok := b.(*ordereddict.Dict)
		return ok && p != nil && q != nil && reflect.DeepEqual(p.Items(), q.Items())
	}
	return reflect.DeepEqual(a, b)
}

// Every subset of arguments, some undeclared, of every kind of value, plain or
// lazily evaluated: accepted exactly when complete, declared and coercible, and
// then every field holds the value of its own argument.
//
// @contract: C17
// @bounded
// @weight: 3
// @covers: arg_parser.ExtractArgsWithContext arg_parser.Parser.Parse
func C17_api_extract(s vSeed) {
	r := apiRand(s)
	env := apiNew()
	defer env.scope.Close()

	args := ordereddict.NewDict()
	values := map[string]types.Any{}
	lazy := r.Intn(3) == 0
	set := func(name string, v types.Any) {
		values[name] = v
		if lazy && v != nil && name != "lazy" && name != "query" {
			args.Set(name, arg_parser.ToLazyExpr(env.scope, v))
			return
		}
		args.Set(name, v)
	}
	names := append([]string{}, apiArgNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	extra := ""
	density := 1 + r.Intn(5)
	mistyped := r.Intn(2) == 0
	for _, n := range names {
		required := n == "name" || n == "count"
		if required && r.Intn(6) == 0 || !required && r.Intn(6) > density {
			continue
		}
		v := apiArgValue(r)
		for k := 0; k < 40 && !mistyped; k++ {
			if _, ok, _ := apiCoerce(env.scope, n, v); ok {
				break
			}
			v = apiArgValue(r)
		}
		set(n, v)
	}
	if r.Intn(4) == 0 {
		extra = apiNotNames[r.Intn(len(apiNotNames))]
		set(extra, apiArgValue(r))
	}
	vInfo("arguments %v lazy %v", values, lazy)

	// a callee without parameters declares none of them
	none := arg_parser.ExtractArgsWithContext(context.Background(), env.scope, args, &struct{}{})
	vEnsures("a callee without parameters takes no argument", (none == nil) == (args.Len() == 0))

	target := apiArgs{}
	err := arg_parser.ExtractArgsWithContext(context.Background(), env.scope, args, &target)
	vInfo("error %v target %+v", err, target)

	problem := extra != ""
	for _, n := range []string{"name", "count"} {
		if _, pres := values[n]; !pres {
			problem = true
		}
	}
	bad := map[string]bool{}
	for n, v := range values {
		if n == extra {
			continue
		}
		if _, ok, _ := apiCoerce(env.scope, n, v); !ok {
			problem = true
			bad[n] = true
		}
	}
	vEnsures("accepted exactly when complete, declared and coercible", (err != nil) == problem)
	if err != nil {
		named := false
		if extra != "" && strings.Contains(err.Error(), extra) {
			named = true
		}
		for n := range bad {
			named = named || strings.Contains(err.Error(), n)
		}
		for _, n := range []string{"name", "count"} {
			if _, pres := values[n]; !pres {
				named = named || strings.Contains(err.Error(), n)
			}
		}
		vEnsures("the error names the parameter", named)
		return
	}
	got := apiFields(reflect.ValueOf(target))
	zero := apiFields(reflect.ValueOf(apiArgs{}))
	right, untouched := true, true
	for _, n := range apiArgNames {
		v, pres := values[n]
		if !pres {
			untouched = untouched && reflect.DeepEqual(got[n], zero[n])
			continue
		}
		want, _, known := apiCoerce(env.scope, n, v)
		if known && !apiDeepSame(got[n], want) {
			vInfo("field %v holds %#v, expected %#v", n, got[n], want)
			right = false
		}
		if n == "lazy" && !apiDeepSame(target.Lazy.Reduce(context.Background()), v) {
			right = false
		}
		if n == "query" {
			count := 0
			for range target.Query.Eval(context.Background(), env.scope) {
				count++
			}
			want := 1
			switch t := v.(type) {
			case []types.Any:
				want = 0
				for _, m := range t {
					if !types.IsNil(m) {
						want++
					}
				}
			case []byte:
				want = len(t)
			case types.Null, *types.Null, nil:
				want = 0
			}
			right = right && count == want
		}
	}
	vEnsures("each field holds the value of its own argument", right)
	vEnsures("absent optional fields keep their zero value", untouched)
	vEnsures("fields without a declaration are left alone", target.Ignore == "" && target.hidden == "")
}

// The same through call sites in a query: a call is made exactly with the
// declared arguments, in any order.
//
// @contract: C17
// @bounded
// @covers: arg_parser.ExtractArgsWithContext vfilter._SymbolRef.callFunction vfilter.Plugin.Eval
func C17_api_call(s vSeed) {
	r := apiRand(s)
	env := apiNew()
	defer env.scope.Close()
	var got *apiArgs
	var got_err error
	record := func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
		target := apiArgs{}
		got_err = arg_parser.ExtractArgsWithContext(ctx, scope, args, &target)
		got = &target
	}
	env.scope.AppendFunctions(&apiFunc{name: "callee", f: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		record(ctx, scope, args)
		return int64(1)
	}})
	env.scope.AppendPlugins(&apiPlugin{name: "rowcallee", f: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, out chan<- types.Row) {
		record(ctx, scope, args)
		out <- ordereddict.NewDict().Set("x", int64(1))
	}})
	env.set("V", int64(11))
	env.set("W", "text")
	env.set("L", []types.Any{"p", "q"})

	type arg struct {
		text  string
		name  string
		value interface{}
	}
	choices := []arg{
		{"name='abc'", "name", "abc"}, {"name=W", "name", "text"}, {"name=V", "name", "11"}, {"`name`='q'", "name", "q"},
		{"count=3", "count", int64(3)}, {"count=V", "count", int64(11)}, {"count=V+1", "count", int64(12)}, {"count='x'", "count", nil},
		{"flag=TRUE", "flag", true}, {"flag=V > 20", "flag", false}, {"flag=L", "flag", true},
		{"ratio=0.5", "ratio", 0.5}, {"ratio=2", "ratio", 2.0}, {"ratio='1'", "ratio", nil},
		{"names=['a', 'b']", "names", []string{"a", "b"}}, {"names=L", "names", []string{"p", "q"}}, {"names='z'", "names", []string{"z"}},
		{"names={ SELECT W FROM scope() }", "", nil},
		{"items=[1, 'b']", "items", []types.Any{int64(1), "b"}},
		{"env=dict(a=1)", "env", ordereddict.NewDict().Set("a", int64(1))}, {"env=1", "env", nil}, {"env=TRUE", "env", nil}, {"env=1.5", "env", nil},
		{"any=W", "any", "text"}, {"kind=W", "kind", apiKind("text")}, {"small=0.5", "small", float32(0.5)},
		{"extra=1", "extra", nil}, {"Name='x'", "Name", nil},
	}
	used := map[string]bool{}
	texts := []string{}
	want := map[string]interface{}{}
	fail := false
	for _, i := range r.Perm(len(choices))[:r.Intn(9)] {
		c := choices[i]
		if c.name == "" || used[c.name] {
			continue
		}
		used[c.name] = true
		texts = append(texts, c.text)
		want[c.name] = c.value
		if c.value == nil {
			fail = true
		}
	}
	for _, must := range []string{"name", "count"} {
		if !used[must] && r.Intn(5) > 0 {
			used[must] = true
			if must == "name" {
				texts, want[must] = append(texts, "name='n'"), "n"
			} else {
				texts, want[must] = append(texts, "count=9"), int64(9)
			}
		}
	}
	if !used["name"] || !used["count"] {
		fail = true
	}
	call := "(" + strings.Join(texts, ", ") + ")"
	query := "SELECT callee" + call + " AS X FROM scope()"
	if r.Intn(2) == 0 {
		query = "SELECT * FROM rowcallee" + call
	}
	vInfo("query %v", query)
	env.query(query)
	vEnsures("the callee is called", got != nil)
	if got == nil {
		return
	}
	vInfo("error %v got %+v", got_err, *got)
	vEnsures("accepted exactly when complete, declared and coercible", (got_err != nil) == fail)
	if got_err != nil || fail {
		return
	}
	fields := apiFields(reflect.ValueOf(*got))
	zero := apiFields(reflect.ValueOf(apiArgs{}))
	right := true
	for _, n := range apiArgNames {
		w, pres := want[n]
		if !pres {
			w = zero[n]
		}
		if !apiDeepSame(fields[n], w) && !reflect.DeepEqual(fields[n], w) {
			vInfo("field %v holds %#v, expected %#v", n, fields[n], w)
			right = false
		}
	}
	vEnsures("each field holds the value of its own argument", right)
}

// A callee that takes free-form arguments: every undeclared argument is handed
// to it with its value, none of the declared ones is, and those that are
// declared are checked and coerced like those of any other callee.
//
// @contract: C17
// @bounded
// @covers: arg_parser.ExtractKWArgsWithContext arg_parser.Parser.ParseAsFreeForm arg_parser.NormalizeArgs
func C17_api_free(s vSeed) {
	r := apiRand(s)
	env := apiNew()
	defer env.scope.Close()
	type form struct {
		Name  string   `vfilter:"required,field=name"`
		Count int64    `vfilter:"optional,field=count"`
		Names []string `vfilter:"optional,field=names"`
	}
	declared := map[string]bool{"name": true, "count": true, "names": true}
	given := map[string]types.Any{}
	args := ordereddict.NewDict()
	var order []string
	lazy := r.Intn(3) == 0
	pool := []string{"name", "count", "names", "extra", "other", "Name", "x y", "0", "count2", "nam"}
	for _, i := range r.Perm(len(pool)) {
		n := pool[i]
		if n == "name" && r.Intn(5) == 0 || n != "name" && r.Intn(2) == 0 {
			continue
		}
		v := apiArgValue(r)
		given[n] = v
		order = append(order, n)
		if lazy && v != nil {
			args.Set(n, arg_parser.ToLazyExpr(env.scope, v))
		} else {
			args.Set(n, v)
		}
	}
	target := form{}
	rest, err := arg_parser.ExtractKWArgsWithContext(context.Background(), env.scope, args, &target)
	vInfo("arguments %v lazy %v error %v rest %v", given, lazy, err, rest)

	problem := false
	bad := []string{}
	if _, pres := given["name"]; !pres {
		problem = true
		bad = append(bad, "name")
	}
	for n := range declared {
		if v, pres := given[n]; pres {
			if _, ok, _ := apiCoerce(env.scope, n, v); !ok {
				problem = true
				bad = append(bad, n)
			}
		}
	}
	vEnsures("accepted exactly when complete and coercible", (err != nil) == problem)
	if err != nil {
		named := false
		for _, n := range bad {
			named = named || strings.Contains(err.Error(), n)
		}
		vEnsures("the error names the parameter", named)
		return
	}
	want := ordereddict.NewDict()
	for _, n := range order {
		if !declared[n] {
			want.Set(n, given[n])
		}
	}
	vEnsures("the rest is given", rest != nil)
	if rest == nil {
		return
	}
	vEnsures("as many as are undeclared", rest.Len() == want.Len())
	right := true
	for _, n := range want.Keys() {
		v, _ := want.Get(n)
		got, pres := rest.Get(n)
		if l, ok := got.(types.LazyExpr); ok {
			got = l.Reduce(context.Background())
		}
		right = right && pres && apiText(got) == apiText(v)
	}
	vEnsures("every undeclared argument with its value", right)
	apiSame("in the order they were given", fmt.Sprint(want.Keys()), fmt.Sprint(rest.Keys()))
	if v, pres := given["name"]; pres {
		if w, ok, known := apiCoerce(env.scope, "name", v); ok && known {
			vEnsures("the declared ones are set", apiDeepSame(target.Name, w))
		}
	}
	if v, pres := given["count"]; pres {
		if w, ok, known := apiCoerce(env.scope, "count", v); ok && known {
			vEnsures("the declared ones are set", apiDeepSame(target.Count, w))
		}
	} else {
		vEnsures("an absent one is zero", target.Count == 0)
	}
}
