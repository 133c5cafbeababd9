package vfilter

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/types"
)

// ---- C22 ----

// apiTogether runs the functions at the same time, and fails when they do not
// all end.
func apiTogether(what string, fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	panics := make(chan any, len(fs))
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					panics <- p
				}
			}()
			<-start
			f()
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vEnsures(what+" ends", false)
	}
	select {
	case p := <-panics:
		vInfo("panic: %v", p)
		vEnsures(what+" does not panic", false)
	default:
	}
}

// Several goroutines extend, derive from, look into, register with and close
// derivatives of one scope: nothing any of them did is lost.
//
// @contract: C22
// @bounded
// @weight: 3
func C22_api_scope(s vSeed) {
	r := apiRand(s)
	root := NewScope()
	workers, rounds := 4+r.Intn(5), 50+r.Intn(200)
	if r.Intn(6) == 0 {
		rounds = 450
	}
	vInfo("%v goroutines, %v rounds each", workers, rounds)
	var mu sync.Mutex
	ran := map[string]int{}
	wrong := ""
	note := func(f string, a ...any) {
		mu.Lock()
		if wrong == "" {
			wrong = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	destructor := func(name string) func() {
		return func() { mu.Lock(); ran[name]++; mu.Unlock() }
	}
	var fs []func()
	for w := 0; w < workers; w++ {
		fs = append(fs, func() {
			for i := 0; i < rounds; i++ {
				name := fmt.Sprintf("v_%d_%d", w, i)
				root.AppendVars(ordereddict.NewDict().Set(name, i))
				if err := root.AddDestructor(destructor(name)); err != nil {
					note("%v: %v", name, err)
				}
				child := root.Copy()
				if err := child.AddDestructor(destructor(name + "c")); err != nil {
					note("%vc: %v", name, err)
				}
				for _, sc := range []types.Scope{root, child} {
					if got, pres := sc.Resolve(name); !pres || apiText(got) != apiText(i) {
						note("%v resolves to %v %v", name, got, pres)
					}
				}
				root.GetAggregatorCtx().Modify("count", func(old types.Any, pres bool) types.Any {
					if !pres {
						return 1
					}
					return old.(int) + 1
				})
				if i%3 != 0 {
					child.Close()
					if !child.IsClosed() {
						note("the child of %v is not closed", name)
					}
				}
			}
		})
	}
	apiTogether("sharing a scope", fs...)
	vInfo("%v", wrong)
	vEnsures("each goroutine sees what it did", wrong == "")
	for w := 0; w < workers; w++ {
		for i := 0; i < rounds; i++ {
			name := fmt.Sprintf("v_%d_%d", w, i)
			got, pres := root.Resolve(name)
			if !pres || apiText(got) != apiText(i) {
				vInfo("%v resolves to %v %v", name, got, pres)
				vEnsures("no binding is lost", false)
			}
		}
	}
	root.GetAggregatorCtx().Modify("count", func(old types.Any, pres bool) types.Any {
		vInfo("count %v of %v", old, workers*rounds)
		vEnsures("no modification is lost", old == workers*rounds)
		return old
	})
	// What was derived while the scope closes is closed with it or refuses.
	late := map[string]bool{}
	fs = []func(){root.Close, root.Close}
	for w := 0; w < workers; w++ {
		fs = append(fs, func() {
			for i := 0; i < 20; i++ {
				name := fmt.Sprintf("late_%d_%d", w, i)
				if root.AddDestructor(destructor(name)) == nil {
					mu.Lock()
					late[name] = true
					mu.Unlock()
				}
				root.Resolve(name)
			}
		})
	}
	apiTogether("closing", fs...)
	mu.Lock()
	defer mu.Unlock()
	for w := 0; w < workers; w++ {
		for i := 0; i < rounds; i++ {
			for _, name := range []string{fmt.Sprintf("v_%d_%d", w, i), fmt.Sprintf("v_%d_%dc", w, i)} {
				if ran[name] != 1 {
					vInfo("%v ran %v times", name, ran[name])
					vEnsures("no destructor is lost or run twice", false)
				}
			}
		}
	}
}

// Queries that share their text, a stored function and a memo per node are
// evaluated by several goroutines at once: each result is what one evaluation
// gives.
//
// @contract: C22
// @bounded
// @weight: 2
func C22_api_queries(s vSeed) {
	r := apiRand(s)
	env := apiNew()
	defer env.scope.Close()
	env.query("LET F(X, Y=3) = X * 2 + Y")
	env.query("LET G(N) = if(condition=N < 1, then=0, else=F(X=N) + G(N=N - 1))")
	env.query("LET Q(N) = SELECT F(X=_value) AS A, G(N=N) AS B, 'x\\ty' AS C, 0x10 + 1.5 AS D FROM range(start=0, end=N, step=1) WHERE F(X=_value) > 2")
	n := 1 + r.Intn(6)
	texts := []string{
		fmt.Sprintf("SELECT * FROM Q(N=%d)", n),
		fmt.Sprintf("SELECT count() AS N, A FROM Q(N=%d) GROUP BY A", n),
		fmt.Sprintf("SELECT A, { SELECT B FROM Q(N=%d) WHERE A = _value LIMIT 1 } AS S FROM foreach(row={ SELECT 1 AS _value FROM range(start=0, end=2, step=1) }, query={ SELECT F(X=_value) AS A FROM scope() })", n),
		"SELECT -F(X=2) AS M, G(N=5) AS K, format(format='%v', args=[F(X=1)]) AS T FROM scope()",
	}
	run := func(vql *VQL) string {
		scope := env.scope.Copy()
		defer scope.Close()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		res := ""
		for row := range vql.Eval(ctx, scope) {
			res += apiText(MaterializedLazyRow(ctx, row, scope)) + "\n"
		}
		return res
	}
	text := texts[r.Intn(len(texts))]
	vInfo("%v", text)
	alone, err := Parse(text)
	vEnsures("parses", err == nil)
	want := run(alone)
	vInfo("alone %v", want)
	shared, err := Parse(text)
	vEnsures("parses", err == nil)
	workers := 2 + r.Intn(7)
	got := make([]string, workers)
	var fs []func()
	for w := range got {
		fs = append(fs, func() { got[w] = run(shared) })
	}
	apiTogether("evaluating", fs...)
	for _, g := range got {
		if g != want {
			vInfo("together %v", g)
			vEnsures("the same rows", false)
		}
	}
}
