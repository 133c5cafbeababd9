package main

import (
	"fmt"
	"runtime/debug"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type ContractRun struct {
	C            *Contract
	Obs          map[string]*Obligation
	ObOrder      []string
	VCs          int
	VCDischarged int
	Steps        int
	MaxSteps     int
	Deadline     time.Time
	MaxRec       int
	Inlined      map[string]bool
	Externals    map[string]bool
	Trusted      map[string]bool
	Assumptions  map[string]bool
	Loops        map[string]bool
	Covered      map[string]bool
	DumpDir      string
	Unsupported  string
	Wall         time.Duration
	Queries      map[string]int
	SolverTime   map[string]time.Duration
	Paths        int
	kinds        map[*Term]*Term
	cancels      map[*Term]bool
}

func (r *ContractRun) assumption(s string) { r.Assumptions[s] = true }
func (r *ContractRun) loopNote(s string)   { r.Loops[s] = true }
func (r *ContractRun) dump(e *Engine, key string, conj []*Term) {
	os.MkdirAll(r.DumpDir, 0755)
	os.WriteFile(filepath.Join(r.DumpDir, sanitize(r.C.Name+"_"+key)+".smt2"), []byte(e.solver.script(conj)+"(check-sat)\n(get-model)\n"), 0644)
}

// Verify discharges every obligation of one contract.
func Verify(ld *Loaded, c *Contract, limit time.Duration, dumpDir string) (run *ContractRun) {
	return Verify2(ld, c, limit, dumpDir, 1)
}

// Verify2 scales the solver time limits.
func Verify2(ld *Loaded, c *Contract, limit time.Duration, dumpDir string, scale int) (run *ContractRun) {
	run = &ContractRun{C: c, Obs: map[string]*Obligation{}, MaxSteps: 5000000, Deadline: time.Now().Add(limit), MaxRec: c.MaxRec,
		Inlined: map[string]bool{}, Externals: map[string]bool{}, Trusted: map[string]bool{}, Assumptions: map[string]bool{},
		Loops: map[string]bool{}, Covered: map[string]bool{}, DumpDir: dumpDir, kinds: map[*Term]*Term{}, cancels: map[*Term]bool{}}
	t0 := time.Now()
	e := NewEngine(ld)
	e.run = run
	e.solver.Scale = scale
	defer func() {
		run.Wall = time.Since(t0)
		run.Queries, run.SolverTime = e.solver.Queries, e.solver.Time
		e.solver.Close()
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				run.Unsupported = u.msg
				return
			}
			if os.Getenv("GVER_PANIC") != "" {
				panic(r)
			}
			if os.Getenv("GVER_STACK") != "" {
				debug.PrintStack()
			}
			run.Unsupported = fmt.Sprintf("verifier error: %v", r)
		}
	}()
	st := e.newState()
	var args []Value
	for _, p := range c.Fn.Params {
		v := e.symbolic(st, p.Type(), "in$"+p.Name())
		if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			run.assumption("interface parameters of contracts (scope, context, ...) are non-nil")
			e.assume(st, e.ts.Not(e.ts.Is("anil", v.(*Term))))
			e.assume(st, e.implTerm(st, v.(*Term), p.Type(), nil))
		}
		args = append(args, v)
	}
	e.callFn(st, c.Fn, args, nil, nil, false, func(st *State, o Outcome) {
		run.Paths++
		if o.Panic != nil {
			if !c.MayPanic {
				e.obligation(st, "panic-free", "no panic: "+o.Panic.what, "", e.ts.False)
			}
			return
		}
		if !run.Covered["end"] && !e.infeasible(st, e.ts.True) {
			run.Covered["end"] = true
		}
	})
	return run
}

// refuted: some obligation has a counterexample.
func (r *ContractRun) refuted() bool {
	for _, o := range r.Obs {
		if o.Status == "refuted" {
			return true
		}
	}
	return false
}

// Verdict: "discharged", "failed", "undecided".
func (r *ContractRun) Verdict() (string, []string) {
	var bad []string
	for _, k := range r.ObOrder {
		o := r.Obs[k]
		if o.Status != "discharged" {
			bad = append(bad, fmt.Sprintf("%s: %s [%s]", r.C.Name, o.Name, o.Status))
		}
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		return "failed", bad
	}
	if r.Unsupported != "" {
		return "undecided", []string{r.C.Name + ": " + r.Unsupported}
	}
	if !r.Covered["end"] {
		return "undecided", []string{r.C.Name + ": vacuous (no feasible path reaches the end)"}
	}
	n := 0
	for _, o := range r.Obs {
		if o.Kind == "ensures" {
			n++
		}
	}
	if n == 0 {
		return "undecided", []string{r.C.Name + ": no obligation generated"}
	}
	return "discharged", nil
}

func joinSorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = strings.Join
