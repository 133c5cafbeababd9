package vfilter

import (
	"context"
	"fmt"
	"math/rand"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// C21 on the public interface: stored queries and functions bind their
// parameters by name, defaults first.

type apiTextValue struct {
	text  string
	value string // as apiText shows it
}

// apiStoredValue: an expression of the caller's scope (see apiStoredEnv) and
// its value there.
func apiStoredValue(r *rand.Rand) apiTextValue {
	pool := []apiTextValue{
		{"1", "1"}, {"-7", "-7"}, {"'s'", `"s"`}, {"''", `""`}, {"NULL", "NULL"}, {"TRUE", "true"}, {"FALSE", "false"}, {"2.5", "2.5f"},
		{"outer", `"OUTER"`}, {"a", `"outer a"`}, {"b", `"outer b"`}, {"a + '!'", `"outer a!"`}, {"[1, 'x']", `[1,"x"]`}, {"num * 2", "42"},
		{"dict(k=a)", `{"k":"outer a"}`}, {"dict(k=1).k", "1"}, {"num - num", "0"}, {"c || 3", "3"},
	}
	return pool[r.Intn(len(pool))]
}

func apiStoredEnv() *apiEnv {
	env := apiNew()
	env.set("a", "outer a")
	env.set("b", "outer b")
	env.set("c", int64(0))
	env.set("outer", "OUTER")
	env.set("num", int64(21))
	return env
}

var apiStoredNames = []string{"a", "b", "c", "p", "q", "long_name"}

type apiSignature struct {
	params   []string
	defaults map[string]apiTextValue
	args     map[string]apiTextValue
	order    []string
	extra    string
}

func apiSignatureOf(r *rand.Rand) *apiSignature {
	sig := &apiSignature{defaults: map[string]apiTextValue{}, args: map[string]apiTextValue{}}
	for _, i := range r.Perm(len(apiStoredNames))[:1+r.Intn(4)] {
		n := apiStoredNames[i]
		sig.params = append(sig.params, n)
		if r.Intn(2) == 0 {
			sig.defaults[n] = apiStoredValue(r)
		}
		if r.Intn(3) > 0 {
			sig.args[n] = apiStoredValue(r)
			sig.order = append(sig.order, n)
		}
	}
	r.Shuffle(len(sig.order), func(i, j int) { sig.order[i], sig.order[j] = sig.order[j], sig.order[i] })
	if r.Intn(5) == 0 {
		sig.extra = "undeclared"
	}
	return sig
}

func (self *apiSignature) declare() string {
	var p []string
	for _, n := range self.params {
		if d, ok := self.defaults[n]; ok {
			p = append(p, n+"="+d.text)
		} else {
			p = append(p, n)
		}
	}
	return "(" + strings.Join(p, ", ") + ")"
}

func (self *apiSignature) call() string {
	var p []string
	for _, n := range self.order {
		p = append(p, n+"="+self.args[n].text)
	}
	if self.extra != "" {
		p = append(p, self.extra+"=1")
	}
	return "(" + strings.Join(p, ", ") + ")"
}

// want: the value of a parameter, false when it has neither an argument nor a
// default.
func (self *apiSignature) want(n string) (string, bool) {
	if v, ok := self.args[n]; ok {
		return v.value, true
	}
	v, ok := self.defaults[n]
	return v.value, ok
}

func (self *apiSignature) body() string {
	var p []string
	for _, n := range self.params {
		p = append(p, n+"="+n)
	}
	return strings.Join(append(p, "zz_outer=outer"), ", ")
}

func (self *apiSignature) columns() string {
	var p []string
	for _, n := range self.params {
		p = append(p, n+" AS R_"+n)
	}
	return strings.Join(append(p, "outer AS R_outer"), ", ")
}

func apiCallerUnchanged(env *apiEnv, sig *apiSignature) {
	now := ""
	for _, n := range []string{"a", "b", "c", "outer", "num"} {
		v, _ := env.scope.Resolve(n)
		now += apiText(v) + " "
	}
	apiSame("the caller's bindings are left alone", `"outer a" "outer b" 0 "OUTER" 21 `, now)
	for _, n := range []string{"p", "q", "long_name", "undeclared"} {
		_, pres := env.scope.Resolve(n)
		vEnsures("no parameter escapes to the caller", !pres)
	}
}

// @contract: C21
// @bounded
// @weight: 2
// @covers: vfilter._SymbolRef.Reduce vfilter.StoredExpression.Reduce vfilter.applyDefaults
func C21_api_function(s vSeed) {
	r := apiRand(s)
	env := apiStoredEnv()
	defer env.scope.Close()
	sig := apiSignatureOf(r)
	define := "LET stored" + sig.declare() + " = dict(" + sig.body() + ")"
	query := "SELECT stored" + sig.call() + " AS X, a AS A FROM scope()"
	vInfo("%s %s", define, query)
	env.query(define)
	for again := 0; again < 2; again++ {
		rows := env.query(query)
		vEnsures("one row", len(rows) == 1)
		x, _ := env.col(rows[0], "X")
		d, ok := x.(*ordereddict.Dict)
		vEnsures("the body is evaluated", ok)
		if !ok {
			return
		}
		for _, n := range sig.params {
			v, _ := d.Get(n)
			if want, known := sig.want(n); known {
				apiSame("parameter "+n+" is bound by name, its default when absent", want, apiText(v))
			}
		}
		o, _ := d.Get("zz_outer")
		apiSame("the body sees the caller's scope", `"OUTER"`, apiText(o))
		a, _ := env.col(rows[0], "A")
		apiSame("the caller's variable", `"outer a"`, apiText(a))
		apiCallerUnchanged(env, sig)
	}
}

// @contract: C21
// @bounded
// @weight: 2
// @covers: vfilter._StoredQuery.Call vfilter.Plugin.Eval vfilter.applyDefaults vfilter._StoredQuery.checkCallingArgs
func C21_api_query(s vSeed) {
	r := apiRand(s)
	env := apiStoredEnv()
	defer env.scope.Close()
	sig := apiSignatureOf(r)
	define := "LET stored" + sig.declare() + " = SELECT " + sig.columns() + " FROM range(end=2)"
	form := r.Intn(3)
	query := "SELECT *, a AS A FROM stored" + sig.call()
	if form == 1 {
		query = "SELECT stored" + sig.call() + " AS X, a AS A FROM scope()"
	} else if form == 2 {
		query = "SELECT * FROM foreach(row={ SELECT 1 AS One FROM scope() }, query={ SELECT *, a AS A FROM stored" + sig.call() + "})"
	}
	vInfo("%s %s", define, query)
	env.query(define)
	for again := 0; again < 2; again++ {
		rows := env.query(query)
		if form == 1 {
			vEnsures("one row", len(rows) == 1)
			if len(rows) != 1 {
				return
			}
			a, _ := env.col(rows[0], "A")
			apiSame("the caller's variable", `"outer a"`, apiText(a))
			x, _ := env.col(rows[0], "X")
			vInfo("X is %T %v log %v", x, apiText(x), env.log.lines)
			if q, ok := x.(types.StoredQuery); ok {
				rows = vCollect(q.Eval(context.Background(), env.scope))
			} else {
				rows = vCollect(env.scope.Iterate(context.Background(), x))
			}
		}
		vEnsures("the body's rows", len(rows) == 2)
		for _, row := range rows {
			for _, n := range sig.params {
				v, _ := env.col(row, "R_"+n)
				if want, known := sig.want(n); known {
					apiSame("parameter "+n+" is bound by name, its default when absent", want, apiText(v))
				}
			}
			o, _ := env.col(row, "R_outer")
			apiSame("the body sees the caller's scope", `"OUTER"`, apiText(o))
			if form != 1 {
				a, _ := env.col(row, "A")
				apiSame("the caller's variable", `"outer a"`, apiText(a))
			}
		}
		apiCallerUnchanged(env, sig)
	}
	if form != 1 {
		vEnsures("an undeclared argument is reported", sig.extra == "" || env.log.has(sig.extra))
		vEnsures("nothing else is reported", sig.extra != "" || !env.log.has("unrecognized"))
	}
}

// Calls in calls: an argument is evaluated in the scope of its own call.
//
// @contract: C21
// @bounded
// @covers: vfilter._SymbolRef.Reduce vfilter._StoredQuery.Call
func C21_api_nested(s vSeed) {
	r := apiRand(s)
	env := apiStoredEnv()
	defer env.scope.Close()
	env.query("LET add(a, b=10) = a * 100 + b LET rowsof(a, n=2) = SELECT a + _value AS V, b AS B FROM range(end=n)")
	env.query("LET fact(n) = if(condition=n < 2, then=1, else=n * fact(n=n - 1)) LET twice(a, b) = add(a=add(a=b, b=a), b=a)")
	env.set("num", int64(21))
	var gen func(depth int) (string, int64)
	gen = func(depth int) (string, int64) {
		if depth == 0 || r.Intn(4) == 0 {
			n := int64(r.Intn(6))
			return fmt.Sprint(n), n
		}
		switch r.Intn(5) {
		case 0:
			x, vx := gen(depth - 1)
			return "add(a=" + x + ")", vx*100 + 10
		case 1:
			x, vx := gen(depth - 1)
			y, vy := gen(depth - 1)
			return "add(b=" + y + ", a=" + x + ")", vx*100 + vy
		case 2:
			x, vx := gen(depth - 1)
			y, vy := gen(depth - 1)
			return "twice(a=" + x + ", b=" + y + ")", (vy*100+vx)*100 + vx
		case 3:
			n := r.Intn(6)
			f := int64(1)
			for i := 2; i <= n; i++ {
				f *= int64(i)
			}
			return fmt.Sprintf("fact(n=%d)", n), f
		}
		return "num", 21
	}
	text, want := gen(3)
	vInfo("expression %s", text)
	apiSame("nested calls", fmt.Sprint(want), apiText(env.expr(text)))

	n := r.Intn(4)
	rows := env.query(fmt.Sprintf("SELECT * FROM rowsof(a=%s, n=%d)", text, n))
	expected := ""
	got := ""
	for i := 0; i < n; i++ {
		expected += fmt.Sprintf("%d \"outer b\" ", want+int64(i))
	}
	for _, row := range rows {
		v, _ := env.col(row, "V")
		b, _ := env.col(row, "B")
		got += apiText(v) + " " + apiText(b) + " "
	}
	apiSame("rows of a stored query", expected, got)
	apiCallerUnchanged(env, nil)
}

// @contract: C21
// @bounded
// @covers: vfilter.Lambda.Reduce vfilter.ParseLambda
func C21_api_lambda(s vSeed) {
	r := apiRand(s)
	env := apiStoredEnv()
	defer env.scope.Close()
	n := 1 + r.Intn(4)
	names := append([]string{}, apiStoredNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:n]
	values := []Any{int64(1), "x", types.Null{}, 0.5, []types.Any{int64(1)}, true}
	var args []Any
	want := "["
	for i := range names {
		v := values[r.Intn(len(values))]
		args = append(args, v)
		if i > 0 {
			want += ","
		}
		want += apiText(v)
	}
	text := strings.Join(names, ",") + "=>dict("
	for i, name := range names {
		if i > 0 {
			text += ", "
		}
		text += "R_" + name + "=" + name
	}
	text += ", o=outer)"
	vInfo("lambda %s called with %v", text, args)
	l, err := ParseLambda(text)
	vEnsures("parses", err == nil)
	if err != nil {
		return
	}
	d, ok := l.Reduce(context.Background(), env.scope, args).(*ordereddict.Dict)
	vEnsures("the body is evaluated", ok)
	if !ok {
		return
	}
	got := "["
	for i, name := range names {
		v, _ := d.Get("R_" + name)
		if i > 0 {
			got += ","
		}
		got += apiText(v)
	}
	apiSame("parameters are bound in order", want, got)
	vEnsures("a wrong number of arguments gives NULL",
		types.IsNil(l.Reduce(context.Background(), env.scope, args[1:])))
	apiCallerUnchanged(env, nil)
}

// A query as an argument or as a default, and quoted parameter names.
//
// @contract: C21
// @bounded
// @covers: vfilter.applyDefaults vfilter.buildArgsFromParameters vfilter._StoredQuery.Call
func C21_api_subselect(s vSeed) {
	r := apiRand(s)
	env := apiStoredEnv()
	defer env.scope.Close()
	name := []string{"a", "p", "`a`", "`p`", "`two words`"}[r.Intn(5)]
	values := []apiTextValue{
		{"{ SELECT 5 AS V FROM scope() }", "[5]"},
		{"{ SELECT _value AS V FROM range(end=3) }", "[0,1,2]"},
		{"[dict(V=7), dict(V=8)]", "[7,8]"},
		{"dict(V=9)", "9"},
	}
	def, arg := values[r.Intn(len(values))], values[r.Intn(len(values))]
	define := "LET stored(" + name + "=" + def.text + ", other=4) = "
	call := "stored("
	want := def.value
	if r.Intn(2) == 0 {
		call += name + "=" + arg.text
		want = arg.value
	}
	if r.Intn(2) == 0 {
		if !strings.HasSuffix(call, "(") {
			call += ", "
		}
		call += "other=5"
	}
	call += ")"
	query := ""
	if r.Intn(2) == 0 {
		define += name + ".V"
		query = "SELECT " + call + " AS X FROM scope()"
	} else {
		define += "SELECT " + name + ".V AS X FROM scope()"
		query = "SELECT X FROM " + call
	}
	vInfo("%s %s", define, query)
	env.query(define)
	rows := env.query(query)
	vEnsures("one row", len(rows) == 1)
	if len(rows) != 1 {
		return
	}
	x, _ := env.col(rows[0], "X")
	apiSame("the parameter is bound", want, apiText(x))
	apiCallerUnchanged(env, nil)
}

// A stored query given as an argument is the caller's: it is run with the
// caller's bindings, whatever the callee's parameters are called.
//
// @contract: C21
// @bounded
// @covers: vfilter._StoredQuery.Call
func C21_api_rows_argument(s vSeed) {
	r := apiRand(s)
	env := apiStoredEnv()
	defer env.scope.Close()
	inner, outer := int64(r.Intn(50)), int64(50+r.Intn(50))
	name := []string{"p", "zz", "num"}[r.Intn(3)]
	env.set(name, outer)
	n := r.Intn(4)
	env.query(fmt.Sprintf("LET rows_of_it = SELECT %s + _value AS V FROM range(end=%d)", name, n))
	env.query(fmt.Sprintf("LET stored(%s, given) = SELECT V, %s AS P FROM given", name, name))
	query := fmt.Sprintf("SELECT * FROM stored(given=rows_of_it, %s=%d)", name, inner)
	if r.Intn(2) == 0 {
		query = fmt.Sprintf("SELECT * FROM stored(%s=%d, given=rows_of_it)", name, inner)
	}
	rows := env.query(query)
	vInfo("%s rows %v", query, len(rows))
	vEnsures("all its rows", len(rows) == n)
	for i, row := range rows {
		v, _ := env.col(row, "V")
		p, _ := env.col(row, "P")
		apiSame("the argument has the caller's binding", fmt.Sprint(outer+int64(i)), apiText(v))
		apiSame("the body has its parameter", fmt.Sprint(inner), apiText(p))
	}
}
