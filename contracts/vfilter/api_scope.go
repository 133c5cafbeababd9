package vfilter

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// ---- C06 ----

// A host value, and extensions that apply to some of them.
type apiHost struct{ K int }

type apiExt struct {
	id   int
	mask int
	left bool
	log  *[]int
}

func (self *apiExt) apply(a, b types.Any) bool {
	v := b
	if self.left {
		v = a
	}
	h, ok := v.(apiHost)
	return ok && self.mask>>h.K&1 == 1
}
func (self *apiExt) ran() int { *self.log = append(*self.log, self.id); return self.id }

type apiBin struct{ *apiExt }

func (self apiBin) Applicable(a, b types.Any) bool { return self.apply(a, b) }

type apiUn struct{ *apiExt }

func (self apiUn) Applicable(a types.Any) bool { return self.apply(a, a) }

type apiExtAdd struct{ apiBin }
type apiExtSub struct{ apiBin }
type apiExtMul struct{ apiBin }
type apiExtDiv struct{ apiBin }
type apiExtEq struct{ apiBin }
type apiExtLt struct{ apiBin }
type apiExtGt struct{ apiBin }
type apiExtIn struct{ apiBin }
type apiExtRe struct{ apiBin }
type apiExtAs struct{ apiBin }
type apiExtBool struct{ apiUn }
type apiExtIter struct{ apiUn }

func (self apiExtAdd) Add(scope types.Scope, a, b types.Any) types.Any { return self.ran() }
func (self apiExtSub) Sub(scope types.Scope, a, b types.Any) types.Any { return self.ran() }
func (self apiExtMul) Mul(scope types.Scope, a, b types.Any) types.Any { return self.ran() }
func (self apiExtDiv) Div(scope types.Scope, a, b types.Any) types.Any { return self.ran() }
func (self apiExtEq) Eq(scope types.Scope, a, b types.Any) bool        { return self.ran()%2 == 0 }
func (self apiExtLt) Lt(scope types.Scope, a, b types.Any) bool        { return self.ran()%2 == 0 }
func (self apiExtGt) Gt(scope types.Scope, a, b types.Any) bool        { return self.ran()%2 == 0 }
func (self apiExtIn) Membership(scope types.Scope, a, b types.Any) bool {
	return self.ran()%2 == 0
}
func (self apiExtRe) Match(scope types.Scope, a, b types.Any) bool { return self.ran()%2 == 0 }
func (self apiExtAs) Associative(scope types.Scope, a, b types.Any) (types.Any, bool) {
	return self.ran(), true
}
func (self apiExtAs) GetMembers(scope types.Scope, a types.Any) []string { return nil }
func (self apiExtBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
	return self.ran()%2 == 0
}
func (self apiExtIter) Iterate(ctx context.Context, scope types.Scope, a types.Any) <-chan types.Row {
	c := make(chan types.Row, 1)
	c <- ordereddict.NewDict().Set("id", self.ran())
	close(c)
	return c
}

var apiExtKinds = []string{"+", "-", "*", "/", "=", "<", ">", "IN", "=~", "[]", "bool", "iterate"}

func apiMakeExt(kind string, e *apiExt) types.Any {
	switch kind {
	case "+":
		return apiExtAdd{apiBin{e}}
	case "-":
		return apiExtSub{apiBin{e}}
	case "*":
		return apiExtMul{apiBin{e}}
	case "/":
		return apiExtDiv{apiBin{e}}
	case "=":
		return apiExtEq{apiBin{e}}
	case "<":
		return apiExtLt{apiBin{e}}
	case ">":
		return apiExtGt{apiBin{e}}
	case "IN":
		return apiExtIn{apiBin{e}}
	case "=~":
		return apiExtRe{apiBin{e}}
	case "[]":
		return apiExtAs{apiBin{e}}
	case "bool":
		return apiExtBool{apiUn{e}}
	}
	return apiExtIter{apiUn{e}}
}

func apiUseExt(kind string, scope types.Scope, a, b types.Any) types.Any {
	switch kind {
	case "+":
		return scope.Add(a, b)
	case "-":
		return scope.Sub(a, b)
	case "*":
		return scope.Mul(a, b)
	case "/":
		return scope.Div(a, b)
	case "=":
		return scope.Eq(a, b)
	case "<":
		return scope.Lt(a, b)
	case ">":
		return scope.Gt(a, b)
	case "IN":
		return scope.Membership(a, b)
	case "=~":
		return scope.Match(a, b)
	case "[]":
		v, _ := scope.Associative(a, b)
		return v
	case "bool":
		return scope.Bool(a)
	}
	out := vCollect(scope.Iterate(context.Background(), a))
	if len(out) != 1 {
		return "rows"
	}
	v, _ := scope.Associative(out[0], "id")
	return v
}

// An environment of the model: extensions newest first, functions, plugins.
type apiModelEnv struct {
	ext     map[string][]*apiExt
	funcs   map[string]int
	plugins map[string]int
}

func (self *apiModelEnv) copy() *apiModelEnv {
	c := &apiModelEnv{map[string][]*apiExt{}, map[string]int{}, map[string]int{}}
	for k, v := range self.ext {
		c.ext[k] = append([]*apiExt{}, v...)
	}
	for k, v := range self.funcs {
		c.funcs[k] = v
	}
	for k, v := range self.plugins {
		c.plugins[k] = v
	}
	return c
}

// @contract: C06
// @bounded
// @weight: 2
func C06_api_history(s vSeed) {
	r := apiRand(s)
	var ran []int
	type env struct {
		scope types.Scope
		m     *apiModelEnv
	}
	envs := []env{{NewScope(), &apiModelEnv{map[string][]*apiExt{}, map[string]int{}, map[string]int{}}}}
	kinds := []string{apiExtKinds[r.Intn(len(apiExtKinds))], apiExtKinds[r.Intn(len(apiExtKinds))]}
	next := 0
	for step := 0; step < 3+r.Intn(15); step++ {
		i := r.Intn(len(envs))
		e := envs[i]
		switch r.Intn(7) {
		case 0, 1:
			next++
			x := &apiExt{id: next, mask: r.Intn(16), left: r.Intn(2) == 0, log: &ran}
			k := kinds[r.Intn(2)]
			vInfo("environment %d: register %s extension %d for hosts %04b (left %v)", i, k, x.id, x.mask, x.left)
			e.scope.AddProtocolImpl(apiMakeExt(k, x))
			e.m.ext[k] = append([]*apiExt{x}, e.m.ext[k]...)
		case 2:
			next++
			n := []string{"f", "g"}[r.Intn(2)]
			id := next
			vInfo("environment %d: function %s is now %d", i, n, id)
			e.scope.AppendFunctions(&apiFunc{n, func(context.Context, types.Scope, *ordereddict.Dict) types.Any { return int64(id) }})
			e.m.funcs[n] = id
		case 3:
			next++
			n := []string{"p", "q"}[r.Intn(2)]
			id := next
			vInfo("environment %d: plugin %s is now %d", i, n, id)
			e.scope.AppendPlugins(&apiPlugin{n, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, out chan<- types.Row) {
				out <- ordereddict.NewDict().Set("id", int64(id))
			}})
			e.m.plugins[n] = id
		case 4:
			if len(envs) < 5 {
				vInfo("environment %d: independent copy of %d", len(envs), i)
				envs = append(envs, env{e.scope.NewScope(), e.m.copy()})
			}
		case 5:
			if len(envs) < 5 {
				vInfo("environment %d: nested scope of %d", len(envs), i)
				envs = append(envs, env{e.scope.Copy(), e.m})
			}
		default:
			if len(envs) < 5 {
				vInfo("environment %d: unrelated", len(envs))
				envs = append(envs, env{NewScope(), &apiModelEnv{map[string][]*apiExt{}, map[string]int{}, map[string]int{}}})
			}
		}
		// ask everywhere
		for i, e := range envs {
			a, b := types.Any(apiHost{r.Intn(4)}), types.Any(apiHost{r.Intn(4)})
			k := kinds[r.Intn(2)]
			want, who := "none", -1
			for _, x := range e.m.ext[k] {
				bb := b
				if k == "bool" || k == "iterate" {
					bb = a
				}
				if x.apply(a, bb) {
					who = x.id
					want = apiText(who)
					switch k {
					case "=", "<", ">", "IN", "=~", "bool":
						want = apiText(who%2 == 0)
					}
					break
				}
			}
			ran = nil
			got := apiText(apiUseExt(k, e.scope, a, b))
			if who < 0 {
				vEnsures("no applicable extension, none asked", len(ran) == 0)
			} else {
				if got != want || fmt.Sprint(ran) != fmt.Sprint([]int{who}) {
					vInfo("environment %d: %v %s %v: extensions that ran %v, should be %d", i, a, k, b, ran, who)
				}
				apiSame("newest applicable extension", want, got)
				apiSame("only that one runs", fmt.Sprint([]int{who}), fmt.Sprint(ran))
			}
			for _, n := range []string{"f", "g"} {
				f, ok := e.scope.GetFunction(n)
				vEnsures("function known where registered", ok == (e.m.funcs[n] != 0))
				if ok {
					apiSame("function registered last", apiText(int64(e.m.funcs[n])), apiText(f.Call(context.Background(), e.scope, ordereddict.NewDict())))
				}
			}
			for _, n := range []string{"p", "q"} {
				p, ok := e.scope.GetPlugin(n)
				vEnsures("plugin known where registered", ok == (e.m.plugins[n] != 0))
				if ok {
					rows := vCollect(p.Call(context.Background(), e.scope, ordereddict.NewDict()))
					apiSame("plugin registered last", fmt.Sprintf("[{\"id\":%d}]", e.m.plugins[n]), apiText(rows))
				}
			}
		}
	}
}

// ---- C07 ----

// @contract: C07
// @bounded
// @weight: 2
func C07_api_history(s vSeed) {
	r := apiRand(s)
	type sc struct {
		scope types.Scope
		vars  []map[string]string
	}
	root := NewScope()
	scs := []*sc{{scope: root}}
	names := []string{"a", "b", "c"}
	next := 0
	for step := 0; step < 2+r.Intn(20); step++ {
		i := r.Intn(len(scs))
		c := scs[i]
		switch r.Intn(4) {
		case 0:
			if len(scs) < 8 {
				vInfo("scope %d: copy of %d", len(scs), i)
				scs = append(scs, &sc{c.scope.Copy(), append([]map[string]string{}, c.vars...)})
			}
		case 1:
			if len(scs) < 8 && r.Intn(4) == 0 {
				vInfo("scope %d: independent of %d", len(scs), i)
				scs = append(scs, &sc{scope: c.scope.NewScope()})
			}
		default:
			d := ordereddict.NewDict()
			m := map[string]string{}
			for _, n := range names {
				if r.Intn(2) == 0 {
					next++
					var v types.Any = int64(next)
					switch r.Intn(12) {
					case 0:
						v = nil
					case 1:
						v = types.Null{}
					case 2:
						v = ""
					case 3:
						v = []types.Any{int64(next)}
					}
					d.Set(n, v)
					m[n] = apiText(v)
				}
			}
			vInfo("scope %d: bind %s", i, apiText(d))
			c.scope.AppendVars(d)
			c.vars = append(c.vars, m)
		}
		for i, c := range scs {
			for _, n := range names {
				want := "absent"
				for k := len(c.vars) - 1; k >= 0; k-- {
					if v, ok := c.vars[k][n]; ok {
						want = v
						break
					}
				}
				got := "absent"
				if v, ok := c.scope.Resolve(n); ok {
					got = apiText(v)
				}
				if got != want {
					vInfo("scope %d, name %s", i, n)
				}
				apiSame("the innermost binding", want, got)
			}
		}
	}
}

// Names seen by a query: columns of the current row, then LETs, then outer
// bindings; nothing of it remains visible outside.
// @contract: C07
// @bounded
func C07_api_query(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	row := ordereddict.NewDict()
	outer := ordereddict.NewDict()
	let := ""
	want := map[string]string{}
	letv := map[string]string{}
	outv := map[string]string{}
	n := int64(0)
	for _, k := range []string{"a", "b", "c"} {
		if r.Intn(2) == 0 {
			n++
			outer.Set(k, n)
			want[k], outv[k] = apiText(n), apiText(n)
		}
		if r.Intn(3) == 0 {
			n++
			let += fmt.Sprintf("LET %s = %d ", k, n)
			want[k], letv[k] = apiText(n), apiText(n)
		}
		if r.Intn(2) == 0 {
			n++
			row.Set(k, n)
			want[k] = apiText(n)
		}
	}
	e.rows = []types.Row{row}
	e.scope.AppendVars(outer)
	q := let + "SELECT a AS ra, b AS rb, c AS rc FROM src()"
	vInfo("%s; row %s; outer %s", q, apiText(row), apiText(outer))
	for i := 0; i < 2; i++ {
		out := e.queryIn(e.scope, q)
		vEnsures("one row", len(out) == 1)
		for _, k := range []string{"a", "b", "c"} {
			w, ok := want[k]
			if !ok {
				w = "NULL"
			}
			v, _ := e.col(out[0], "r"+k)
			apiSame("value of "+k, w, apiText(v))
			// what is left afterwards: LET bindings and the outer ones
			w, ok = letv[k]
			if !ok {
				w, ok = outv[k]
			}
			got, pres := e.scope.Resolve(k)
			vEnsures("presence of "+k+" afterwards", pres == ok)
			if ok {
				if l, isLazy := got.(types.LazyExpr); isLazy {
					got = l.Reduce(context.Background())
				} else if se, isSE := got.(types.StoredExpression); isSE {
					got = se.Reduce(context.Background(), e.scope)
				}
				apiSame("binding of "+k+" afterwards", w, apiText(got))
			}
		}
	}
}

// ---- C08 ----

// @contract: C08
// @bounded
// @weight: 2
func C08_api_history(s vSeed) {
	r := apiRand(s)
	type node struct {
		scope  types.Scope
		parent int
		open   bool
	}
	type reg struct{ node, seq, ran, at int }
	var mu sync.Mutex
	var order []int
	nodes := []*node{{NewScope(), -1, true}}
	var regs []*reg
	var runOf func(id int) func()
	add := func(i int, again bool) {
		id := len(regs)
		regs = append(regs, &reg{node: i, seq: id})
		f := runOf(id)
		if again {
			g := f
			f = func() {
				g()
				mu.Lock()
				id2 := len(regs)
				regs = append(regs, &reg{node: i, seq: id2})
				mu.Unlock()
				if nodes[i].scope.AddDestructor(runOf(id2)) != nil {
					regs[id2].ran = -1
				}
			}
		}
		err := nodes[i].scope.AddDestructor(f)
		vEnsures("registering on an open scope works", err == nil)
	}
	runOf = func(id int) func() {
		return func() {
			mu.Lock()
			defer mu.Unlock()
			regs[id].ran++
			regs[id].at = len(order)
			order = append(order, id)
		}
	}
	under := func(i, anc int) bool {
		for i >= 0 && i != anc {
			i = nodes[i].parent
		}
		return i == anc
	}
	shutdown := func(i int) {
		for j, n := range nodes {
			if under(j, i) {
				n.open = false
			}
		}
	}
	closeNode := func(i int) {
		was := len(order)
		// a destructor that registers another one is still part of closing
		expect := map[int]bool{}
		for id, x := range regs {
			if under(x.node, i) && nodes[x.node].open {
				expect[id] = true
			}
		}
		nodes[i].scope.Close()
		shutdown(i)
		for id, x := range regs {
			if expect[id] {
				vEnsures("a destructor of a closed scope ran once", x.ran == 1)
			}
		}
		for _, id := range order[was:] {
			vEnsures("only destructors of the closed scopes run", under(regs[id].node, i))
			vEnsures("none runs twice", regs[id].ran == 1)
		}
		for p, id := range order[was:] {
			for _, id2 := range order[was+p+1:] {
				x, y := regs[id], regs[id2]
				if x.node == y.node && expect[id] && expect[id2] {
					vEnsures("newest first", x.seq > y.seq)
				}
				if x.node != y.node {
					vEnsures("derived scopes first", !under(y.node, x.node))
				}
			}
		}
	}
	for step := 0; step < 3+r.Intn(25); step++ {
		i := r.Intn(len(nodes))
		if r.Intn(10) == 0 {
			i = 0
		}
		switch c := r.Intn(10); {
		case c < 3:
			// many children exercise the list of open scopes
			k := 1
			if r.Intn(4) == 0 {
				k = 1 + r.Intn(20)
			}
			churn := 0
			if k > 5 {
				churn = r.Intn(3)
			}
			for ; k > 0 && nodes[i].open && len(nodes) < 60; k-- {
				vInfo("scope %d: copy of %d", len(nodes), i)
				nodes = append(nodes, &node{nodes[i].scope.Copy(), i, true})
				if r.Intn(3) < churn {
					vInfo("and closed")
					closeNode(len(nodes) - 1)
				} else if r.Intn(2) == 0 {
					vInfo("with destructor %d", len(regs))
					add(len(nodes)-1, false)
				}
			}
		case c < 7:
			if nodes[i].open {
				again := r.Intn(6) == 0
				vInfo("scope %d: destructor %d (registers another: %v)", i, len(regs), again)
				add(i, again)
			} else {
				vInfo("scope %d: destructor after close", i)
				err := nodes[i].scope.AddDestructor(func() { panic("ran") })
				vEnsures("registering on a closed scope is refused", err != nil)
			}
		default:
			if i == 0 && r.Intn(3) > 0 {
				continue
			}
			vInfo("close %d (open: %v)", i, nodes[i].open)
			was := nodes[i].open
			n := len(order)
			closeNode(i)
			vEnsures("closed", nodes[i].scope.IsClosed())
			vEnsures("closing again runs nothing", was || len(order) == n)
		}
		for j, n := range nodes {
			if n.open == n.scope.IsClosed() {
				vInfo("scope %d: open should be %v", j, n.open)
				vEnsures("exactly the closed scopes are closed", false)
			}
		}
	}
	vInfo("close 0")
	closeNode(0)
	for _, x := range regs {
		vEnsures("in the end everything ran exactly once", x.ran == 1)
	}
}

// Queries close the scopes they make.
// @contract: C08
// @bounded
func C08_api_query(s vSeed) {
	r := apiRand(s)
	e := apiNew()
	var mu sync.Mutex
	ran := map[int]int{}
	made := 0
	e.scope.AppendFunctions(&apiFunc{"tmp", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		mu.Lock()
		defer mu.Unlock()
		id := made
		made++
		if scope.AddDestructor(func() { mu.Lock(); ran[id]++; mu.Unlock() }) != nil {
			ran[id]++
		}
		return int64(id)
	}})
	for i := r.Intn(6); i > 0; i-- {
		e.rows = append(e.rows, ordereddict.NewDict().Set("X", int64(i)))
	}
	q := []string{
		"SELECT X, tmp() AS T FROM src()",
		"SELECT X, tmp() AS T FROM src() WHERE tmp() + 1 > 0",
		"SELECT X, tmp() AS T FROM src() LIMIT 2",
		"SELECT * FROM foreach(row={SELECT X FROM src()}, query={SELECT X, tmp() AS T FROM scope()})",
		"LET q = SELECT X, tmp() AS T FROM src() SELECT * FROM q",
		"LET q <= SELECT X, tmp() AS T FROM src() SELECT * FROM q",
		"LET f(x) = tmp() SELECT X, f(x=X) AS T FROM src()",
		"SELECT X, tmp() AS T FROM src() GROUP BY X",
		"SELECT X, tmp() AS T FROM src() ORDER BY X",
		"SELECT X, { SELECT tmp() AS Z FROM scope() } AS T FROM src()",
	}[r.Intn(10)]
	vInfo("%s over %d rows", q, len(e.rows))
	sub := e.scope.Copy()
	for _, row := range e.queryIn(sub, q) {
		e.col(row, "T")
	}
	e.scope.Close()
	// what a LIMIT cut off may still be winding down
	for i := 0; i < 500; i++ {
		mu.Lock()
		left := 0
		for id := 0; id < made; id++ {
			if ran[id] == 0 {
				left++
			}
		}
		mu.Unlock()
		if left == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	mu.Lock()
	defer mu.Unlock()
	for id := 0; id < made; id++ {
		if ran[id] != 1 {
			vInfo("destructor %d ran %d times", id, ran[id])
			vEnsures("each ran exactly once", false)
		}
	}
}

// ---- C09 ----

// @contract: C09
// @bounded
func C09_api_depth(s vSeed) {
	r := apiRand(s)
	var scope types.Scope = NewScope()
	log := &apiLog{}
	_ = log
	n := []int{0, 1, 2, 10, 100, 998, 999, 1000, 1001, 1010}[r.Intn(10)]
	if r.Intn(2) == 0 {
		n = r.Intn(1100)
	}
	base := scope.(interface{ StackDepth() int }).StackDepth()
	bind := r.Intn(3) > 0
	vInfo("%d copies, with bindings: %v", n, bind)
	for i := 0; i < n; i++ {
		scope = scope.Copy()
		for k := r.Intn(3); k > 0 && bind; k-- {
			scope.AppendVars(ordereddict.NewDict().Set("x", int64(i)))
		}
	}
	apiSame("depth", fmt.Sprint(base+n), fmt.Sprint(scope.(interface{ StackDepth() int }).StackDepth()))
	vEnsures("overflow exactly from 1000 on", scope.CheckForOverflow() == (base+n >= 1000))
	_, pres := scope.Resolve("NULL")
	vEnsures("names resolve below the limit only", pres == (base+n < 1000))
}

var apiRecursions = []string{
	"LET f(x) = f(x=x + 1) SELECT f(x=1) AS Y FROM scope()",
	"LET f(x) = g(x=x) LET g(x) = f(x=x) SELECT f(x=1) AS Y FROM scope()",
	"LET q(x) = SELECT * FROM q(x=x + 1) SELECT * FROM q(x=1)",
	"LET q(x) = SELECT * FROM foreach(row=q(x=x + 1)) SELECT * FROM q(x=1)",
	"LET q = SELECT * FROM q SELECT * FROM q",
	"LET q(x) = SELECT x, { SELECT * FROM q(x=x + 1) } AS Y FROM scope() SELECT * FROM q(x=1)",
	"LET x = x + 1 SELECT x FROM scope()",
	"LET x = y LET y = x SELECT x, y FROM scope()",
	"LET f(x) = 1 + f(x=x) SELECT f(x=1) AS Y FROM scope()",
	"LET f(x) = if(condition=TRUE, then=f(x=x)) SELECT f(x=1) AS Y FROM scope()",
	"LET q(x) = SELECT * FROM chain(a={ SELECT * FROM q(x=x) }) SELECT * FROM q(x=1)",
	"LET q(x) = SELECT * FROM if(condition=TRUE, then={ SELECT * FROM q(x=x) }) SELECT * FROM q(x=1)",
	"LET q(x) = SELECT f(x=x) AS Z FROM scope() LET f(x) = q(x=x) SELECT * FROM q(x=1)",
}

// Definitions that call themselves stop with an error message.
// @contract: C09
// @bounded
func C09_api_recursion(s vSeed) {
	r := apiRand(s)
	q := apiRecursions[r.Intn(len(apiRecursions))]
	if r.Intn(2) == 0 {
		q = strings.Replace(q, "scope()", "src()", 1)
	}
	e := apiNew()
	e.rows = []types.Row{ordereddict.NewDict().Set("X", int64(1))}
	vInfo("%s", q)
	rows := e.queryIn(e.scope, q)
	for _, row := range rows {
		for _, c := range e.scope.GetMembers(row) {
			v, _ := e.col(row, c)
			_ = v
		}
	}
	vEnsures("the cut-off is reported", e.log.has("Stack Overflow"))
}

var _ = rand.Intn
