package vfilter

// Helpers of the contracts stated on the public interface (queries in, rows
// out). They use exported names only, so that they survive restructurings of
// the implementation.

import (
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

type apiLog struct {
	mu    sync.Mutex
	lines []string
}

func (self *apiLog) Write(b []byte) (int, error) {
	self.mu.Lock()
	defer self.mu.Unlock()
	self.lines = append(self.lines, string(b))
	return len(b), nil
}

func (self *apiLog) has(s string) bool {
	self.mu.Lock()
	defer self.mu.Unlock()
	for _, l := range self.lines {
		if strings.Contains(l, s) {
			return true
		}
	}
	return false
}

// apiEnv: an environment with functions and a plugin that observe evaluation.
type apiEnv struct {
	scope  types.Scope
	log    *apiLog
	mu     sync.Mutex
	events []string
	rows   []types.Row
	values map[string]types.Any
}

func (self *apiEnv) event(s string) {
	self.mu.Lock()
	defer self.mu.Unlock()
	self.events = append(self.events, s)
}

func (self *apiEnv) trace() string {
	self.mu.Lock()
	defer self.mu.Unlock()
	return strings.Join(self.events, " ")
}

type apiFunc struct {
	name string
	f    func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any
}

func (self *apiFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return self.f(ctx, scope, args)
}
func (self *apiFunc) Info(scope types.Scope, type_map *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: self.name}
}

// Copy: every call site keeps this instance.
func (self *apiFunc) Copy() types.FunctionInterface { return self }

type apiPlugin struct {
	name string
	f    func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, out chan<- types.Row)
}

func (self *apiPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		self.f(ctx, scope, args, out)
	}()
	return out
}
func (self *apiPlugin) Info(scope types.Scope, type_map *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: self.name}
}

// apiNew: ev(n=N) records that it ran and returns values[N]; src() emits rows.
func apiNew() *apiEnv {
	e := &apiEnv{scope: NewScope(), log: &apiLog{}, values: map[string]types.Any{}}
	e.scope.SetLogger(log.New(e.log, "", 0))
	e.scope.AppendFunctions(&apiFunc{"ev", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n, _ := args.Get("n")
		if l, ok := n.(types.LazyExpr); ok {
			n = l.Reduce(ctx)
		}
		k := fmt.Sprint(n)
		e.event(k)
		return e.values[k]
	}})
	e.scope.AppendPlugins(&apiPlugin{"src", func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, out chan<- types.Row) {
		for _, r := range e.rows {
			select {
			case <-ctx.Done():
				return
			case out <- r:
			}
		}
	}})
	return e
}

func (self *apiEnv) set(name string, v types.Any) {
	self.scope.AppendVars(ordereddict.NewDict().Set(name, v))
}

// expr evaluates an expression through the lambda entry point.
func (self *apiEnv) expr(text string) types.Any {
	l, err := ParseLambda("zz_unused=>" + text)
	if err != nil {
		panic(fmt.Sprintf("%s does not parse: %v", text, err))
	}
	return l.Reduce(context.Background(), self.scope, []Any{types.Null{}})
}

// query runs one query and returns its rows.
func (self *apiEnv) query(text string) []types.Row {
	return self.queryIn(self.scope, text)
}

func (self *apiEnv) queryIn(scope types.Scope, text string) []types.Row {
	vqls, err := MultiParse(text)
	if err != nil {
		panic(fmt.Sprintf("%s does not parse: %v", text, err))
	}
	var out []types.Row
	for _, v := range vqls {
		out = append(out, vCollect(v.Eval(context.Background(), scope))...)
	}
	return out
}

// col: a column of a row.
func (self *apiEnv) col(row types.Row, name string) (types.Any, bool) {
	return self.scope.Associative(row, name)
}

func (self *apiEnv) cols(rows []types.Row, name string) []types.Any {
	var out []types.Any
	for _, r := range rows {
		v, ok := self.col(r, name)
		if !ok {
			v = "<absent>"
		}
		out = append(out, v)
	}
	return out
}

// apiText: a canonical rendering of a value: numbers by value and kind,
// containers by their members.
func apiText(v types.Any) string {
	switch t := v.(type) {
	case nil, types.Null, *types.Null:
		return "NULL"
	case string:
		return fmt.Sprintf("%q", t)
	case bool:
		return fmt.Sprintf("%v", t)
	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		return fmt.Sprintf("%d", t)
	case float64:
		return fmt.Sprintf("%vf", t)
	case *ordereddict.Dict:
		var p []string
		for _, k := range t.Keys() {
			x, _ := t.Get(k)
			p = append(p, fmt.Sprintf("%q:%s", k, apiText(x)))
		}
		return "{" + strings.Join(p, ",") + "}"
	case []types.Any:
		var p []string
		for _, x := range t {
			p = append(p, apiText(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case []types.Row:
		return apiRows(t)
	case []string:
		var p []string
		for _, x := range t {
			p = append(p, fmt.Sprintf("%q", x))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func apiRows(rows []types.Row) string {
	var p []string
	for _, r := range rows {
		p = append(p, apiText(r))
	}
	return "[" + strings.Join(p, ",") + "]"
}

func apiList(xs []types.Any) string { return apiText(xs) }

// apiSame reports a difference between what was expected and what happened.
func apiSame(name, want, got string) {
	if want != got {
		vInfo("expected %s", want)
		vInfo("got %s", got)
		vEnsures(name, false)
	}
}

func apiRand(s vSeed) *rand.Rand { return rand.New(rand.NewSource(s.S)) }

var _ io.Writer = &apiLog{}
