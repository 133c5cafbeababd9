package main

// The check driver: proves the contracts of one property on the current
// source of the repository, executes them natively (bounded) for concrete
// failing inputs, and writes evidence.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type racResult struct {
	Contract string   `json:"contract"`
	Runs     int      `json:"runs"`
	Skipped  int      `json:"skipped"`
	Distinct int      `json:"distinct"`
	Failed   string   `json:"failed"`
	Input    []string `json:"input"`
	Sample   []string `json:"sample"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Start    string   `json:"start"`
	End      bool     `json:"end"`
}

// pkgDir: repository directory of a contracts directory name.
func pkgDir(repo, d string) string {
	if d == "vfilter" {
		return repo
	}
	return filepath.Join(repo, strings.ReplaceAll(d, "__", "/"))
}

type racJob struct {
	dir   string // contracts directory name
	names []string
}

// RAC executes contracts natively with go test and an overlay.
func RAC(vdir, repo string, dropped map[string]bool, jobs []racJob, may map[string]bool, seed int64, max, secs int) (map[string]*racResult, []string) {
	tmp, err := os.MkdirTemp("", "gver-rac-")
	if err != nil {
		return nil, []string{err.Error()}
	}
	defer os.RemoveAll(tmp)
	prel, _ := os.ReadFile(filepath.Join(vdir, "contracts", "prelude.go.txt"))
	harn, _ := os.ReadFile(filepath.Join(vdir, "contracts", "rac_test.go.txt"))
	repl := map[string]string{}
	files := contractFiles(vdir)
	n := 0
	put := func(virt string, content []byte) {
		n++
		p := filepath.Join(tmp, fmt.Sprintf("f%d.go", n))
		os.WriteFile(p, content, 0644)
		repl[virt] = p
	}
	byDir := map[string][]string{}
	for _, j := range jobs {
		byDir[j.dir] = j.names
	}
	for d, fs := range files {
		dir := pkgDir(repo, d)
		pk := pkgName(d)
		for _, f := range fs {
			virt := filepath.Join(dir, "zz_verif_"+filepath.Base(f))
			if dropped[virt] {
				continue
			}
			b, _ := os.ReadFile(f)
			put(virt, b)
		}
		put(filepath.Join(dir, "zz_verif_prelude.go"), []byte(strings.Replace(string(prel), "package PKG", "package "+pk, 1)))
		names, ok := byDir[d]
		if !ok {
			continue
		}
		put(filepath.Join(dir, "zz_verif_rac_test.go"), []byte(strings.Replace(string(harn), "package PKG", "package "+pk, 1)))
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nvar vCases = []vCase{\n", pk)
		for _, nm := range names {
			fmt.Fprintf(&sb, "\t{%q, %s, %v},\n", nm, nm, may[nm])
		}
		sb.WriteString("}\n")
		put(filepath.Join(dir, "zz_verif_cases_test.go"), []byte(sb.String()))
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovp := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovp, ov, 0644)
	results := map[string]*racResult{}
	var problems []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, j := range jobs {
		if len(j.names) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rel, _ := filepath.Rel(repo, pkgDir(repo, j.dir))
			bin := filepath.Join(tmp, j.dir+".test")
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovp, "-o", bin, "./"+rel)
			cmd.Dir = repo
			b, err := cmd.CombinedOutput()
			if err != nil {
				mu.Lock()
				problems = append(problems, "native build of contracts/"+j.dir+": "+tail(string(b), 2000))
				mu.Unlock()
				return
			}
			// split the contracts over a few processes
			k := 4
			if len(j.names) < k {
				k = len(j.names)
			}
			var w2 sync.WaitGroup
			for i := 0; i < k; i++ {
				var mine []string
				for x := i; x < len(j.names); x += k {
					mine = append(mine, j.names[x])
				}
				w2.Add(1)
				go func() {
					defer w2.Done()
					out := filepath.Join(tmp, fmt.Sprintf("%s.%d.out", j.dir, i))
					for len(mine) > 0 {
						scratch, _ := os.MkdirTemp(tmp, "cwd")
						ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
						cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 20000000; exec \"$@\"", "x", bin, "-test.run", "^TestVerifRAC$", "-test.timeout", "390s")
						cmd.Dir = scratch
						cmd.Env = append(os.Environ(), "VERIF_RAC_OUT="+out, "VERIF_RAC_RUN="+strings.Join(mine, ","),
							"VERIF_SEED="+strconv.FormatInt(seed, 10), fmt.Sprintf("VERIF_RAC_MAX=%d", max), fmt.Sprintf("VERIF_RAC_SECS=%d", secs))
						os.Remove(out)
						txt, _ := cmd.CombinedOutput()
						cancel()
						done := map[string]bool{}
						last, end := "", false
						f, err := os.Open(out)
						if err == nil {
							sc := bufio.NewScanner(f)
							sc.Buffer(make([]byte, 1<<20), 1<<26)
							for sc.Scan() {
								r := &racResult{}
								if json.Unmarshal(sc.Bytes(), r) != nil {
									continue
								}
								if r.Start != "" {
									last = r.Start
								} else if r.End {
									end = true
								} else if r.Contract != "" {
									mu.Lock()
									results[r.Contract] = r
									mu.Unlock()
									done[r.Contract] = true
								}
							}
							f.Close()
						}
						if end {
							return
						}
						// the process died in contract `last`
						if last == "" {
							mu.Lock()
							problems = append(problems, "native run of contracts/"+j.dir+" died: "+tail(string(txt), 1500))
							mu.Unlock()
							return
						}
						if !done[last] {
							mu.Lock()
							results[last] = &racResult{Contract: last, Failed: "the process survives (" + firstLine(string(txt)) + ")", Seed: seed, Input: []string{tail(string(txt), 3000)}}
							mu.Unlock()
							done[last] = true
						}
						var rest []string
						for _, x := range mine {
							if !done[x] {
								rest = append(rest, x)
							}
						}
						mine = rest
					}
				}()
			}
			w2.Wait()
		}()
	}
	wg.Wait()
	return results, problems
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return tail(s, 100)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type known struct {
	prop, contract, text string
}

// known findings: lines "KNOWN: property=Cxx contract=NAME text".
func readKnown(vdir string) []known {
	var out []known
	b, _ := os.ReadFile(filepath.Join(vdir, "known_findings.txt"))
	re := regexp.MustCompile(`^KNOWN: property=(\S+) contract=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

func Check(vdir, repo, prop, tier string, seed int64) int {
	t0 := time.Now()
	limit, racMax, racSecs := 240*time.Second, 20000, 5
	if tier == "thorough" {
		limit, racMax, racSecs = 1200*time.Second, 1000000, 40
	}
	notes := []string{}
	ld, err := Load(vdir, repo)
	if err != nil {
		fmt.Println("cannot load the repository with its contracts:", err)
		return 2
	}
	notes = append(notes, ld.Notes...)
	for _, n := range ld.Notes {
		fmt.Println("NOTE:", n)
	}
	var cs, all []*Contract
	may := map[string]bool{}
	racByDir := map[string][]string{}
	for _, c := range ld.Contracts {
		if c.Prop != prop {
			continue
		}
		all = append(all, c)
		may[c.Name] = c.MayPanic
		if !c.Bounded && !(c.Slow && tier != "thorough") && os.Getenv("GVER_RACONLY") == "" {
			cs = append(cs, c)
		}
		if !c.NoRAC {
			d := dirOfPkg(c.Pkg)
			racByDir[d] = append(racByDir[d], c.Name)
		}
	}
	if len(all) == 0 && len(ld.Notes) == 0 {
		fmt.Println("no contracts for", prop)
		return 2
	}
	var jobs []racJob
	for d, n := range racByDir {
		jobs = append(jobs, racJob{d, n})
	}
	kn := readKnown(vdir)
	isKnown := func(c string) (string, bool) {
		for _, k := range kn {
			if k.prop == prop && k.contract == c {
				return k.text, true
			}
		}
		return "", false
	}

	var rac map[string]*racResult
	witness := false
	var racProblems []string
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rac, racProblems = RAC(vdir, repo, ld.Dropped, jobs, may, seed, racMax, racSecs)
		for n, x := range rac {
			if _, ok := isKnown(n); x.Failed != "" && !ok {
				witness = true
			}
		}
		if witness {
			// decided: what is still being proved gets a little longer
			stopAt.Store(time.Now().Add(15 * time.Second).UnixNano())
		}
	}()
	workers := runtime.NumCPU() - 1
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	if tier != "thorough" {
		stopAt.Store(t0.Add(600 * time.Second).UnixNano())
	}
	runs := make([]*ContractRun, len(cs))
	verifyAll(ld, cs, runs, workers, limit)
	wg.Wait()
	for _, p := range racProblems {
		notes = append(notes, p)
		fmt.Println("NOTE:", p)
	}

	// a contract that failed only by timeouts is retried alone
	for i, r := range runs {
		v, _ := r.Verdict()
		shown := false
		if x := rac[r.C.Name]; x != nil && x.Failed != "" {
			shown = true
		}
		// (a refutation under an invariant that got lost to a timeout is none)
		if v == "failed" && (!r.refuted() || !shown) && time.Since(t0) < 300*time.Second && !witness {
			fmt.Printf("retrying %s with more time\n", r.C.Name)
			tmp := Verify2(ld, cs[i], limit, "", 3)
			if v2, _ := tmp.Verdict(); v2 == "discharged" {
				runs[i] = tmp
			}
		}
	}

	// failing contracts without a failing input: search harder
	var again []string
	for _, r := range runs {
		v, _ := r.Verdict()
		if v == "failed" && !r.C.NoRAC && !witness {
			if x := rac[r.C.Name]; x != nil && x.Failed == "" {
				again = append(again, r.C.Name)
			}
		}
	}
	if len(again) > 0 {
		byDir := map[string][]string{}
		for _, c := range all {
			for _, a := range again {
				if a == c.Name {
					byDir[dirOfPkg(c.Pkg)] = append(byDir[dirOfPkg(c.Pkg)], a)
				}
			}
		}
		var j2 []racJob
		for d, n := range byDir {
			j2 = append(j2, racJob{d, n})
		}
		r2, _ := RAC(vdir, repo, ld.Dropped, j2, may, seed+7919, 3000000, 40)
		for k, x := range r2 {
			if x.Failed != "" {
				rac[k] = x
			}
		}
	}

	type viol struct {
		contract, what string
		input          bool
		detail         map[string]any
	}
	var viols []viol
	knownSeen := map[string]string{}
	ev := map[string]any{}
	obligations, discharged, nbounded, ndischargedContracts, undecided := 0, 0, 0, 0, 0
	trusted, assumptions, externals, covers, inlined, loops := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	queries, stime := map[string]int{}, map[string]float64{}
	var perContract []map[string]any
	for _, r := range runs {
		v, why := r.Verdict()
		fmt.Printf("%-36s %-10s obligations %d/%d paths %d %v\n", r.C.Name, v, r.VCDischarged, r.VCs, r.Paths, r.Wall.Round(time.Millisecond))
		for _, w := range why {
			fmt.Println("     ", w)
		}
		pc := map[string]any{"contract": r.C.Name, "verdict": v, "obligations": r.VCs, "discharged": r.VCDischarged, "paths": r.Paths,
			"wall_s": round(r.Wall.Seconds()), "cases_reached": joinSorted(r.Covered), "backends": r.Queries}
		if len(why) > 0 {
			pc["why"] = why
		}
		perContract = append(perContract, pc)
		for _, n := range r.C.Covers {
			covers[n] = true
		}
		for _, mp := range []struct{ to, from map[string]bool }{{trusted, r.Trusted}, {assumptions, r.Assumptions}, {externals, r.Externals}, {inlined, r.Inlined}, {loops, r.Loops}} {
			for k := range mp.from {
				mp.to[k] = true
			}
		}
		for k, n := range r.Queries {
			queries[k] += n
		}
		for k, d := range r.SolverTime {
			stime[k] = round(stime[k] + d.Seconds())
		}
		obligations += r.VCs
		discharged += r.VCDischarged
		switch v {
		case "discharged":
			ndischargedContracts++
		case "undecided":
			undecided++
		case "failed":
			if _, ok := isKnown(r.C.Name); ok {
				break
			}
			var obs []map[string]any
			for _, k := range r.ObOrder {
				o := r.Obs[k]
				if o.Status != "discharged" {
					obs = append(obs, map[string]any{"obligation": o.Name, "kind": o.Kind, "status": o.Status, "verifier_output": o.Detail, "path": o.Path})
				}
			}
			d := map[string]any{"failed_obligations": obs}
			x := rac[r.C.Name]
			if x != nil && x.Failed != "" {
				break // reported below with its input
			}
			viols = append(viols, viol{r.C.Name, why[0], false, d})
		}
	}
	evals, distinct := 0, 0
	var samples []any
	var names []string
	for n := range rac {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x := rac[n]
		evals += x.Runs
		distinct += x.Distinct
		if x.Sample != nil && len(samples) < 12 {
			samples = append(samples, map[string]any{"contract": n, "input": x.Sample})
		}
		if x.Failed != "" {
			if txt, ok := isKnown(n); ok {
				knownSeen[n] = txt
				continue
			}
			fmt.Printf("%s fails on the real code: %s\n", n, x.Failed)
			for i, in := range x.Input {
				fmt.Printf("      input %d: %s\n", i, in)
			}
			viols = append(viols, viol{n, x.Failed, true, map[string]any{"failed_obligation": x.Failed, "input": x.Input, "case": x.Case, "case_seed": x.Seed}})
		} else if x.Runs == 0 {
			notes = append(notes, n+": no generated input meets its precondition")
		}
	}
	for _, c := range all {
		if c.Bounded {
			nbounded++
			covers := ""
			x := rac[c.Name]
			st := "not run"
			if x != nil {
				st = fmt.Sprintf("%d executions", x.Runs)
			}
			perContract = append(perContract, map[string]any{"contract": c.Name, "verdict": "bounded: " + st + covers})
		}
	}
	var ks []string
	for k := range knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownSeen[k])
	}

	tb := []string{"the verifier gver (/verif/gver: semantics of Go SSA, path exploration, SMT encoding)", "golang.org/x/tools/go/ssa", "go/types", "solvers z3 4.8.12, z3-new, cvc5 1.1.2"}
	tb = append(tb, joinSorted(trusted)...)
	as := joinSorted(assumptions)
	for _, x := range joinSorted(externals) {
		as = append(as, "external function, uninterpreted: "+x)
	}
	as = append(as, "stack and heap are unlimited; strings, slices and channels hold fewer than 2^48 elements", "termination of loops is not proved by the contracts unless stated; the native runs have a watchdog")
	cov := map[string]any{
		"obligations": obligations, "discharged": discharged,
		"checker_cmd":          "GVER check -property " + prop + " (./check.sh " + prop + ")",
		"trusted_base":         tb,
		"contracts_discharged": ndischargedContracts, "contracts_undecided": undecided, "contracts_bounded_only": nbounded,
		"functions_under_contract": joinSorted(covers), "functions_inlined_into_proofs": joinSorted(inlined),
		"loop_rules": joinSorted(loops), "contracts": perContract,
		"solver_queries": queries, "solver_seconds": stime,
		"bounded_native_runs": map[string]any{"evaluations": evals, "distinct_nontrivial": distinct,
			"rule":    "every contract is also executed on the real code over the product of per-type corpora (exhaustive when small, otherwise sampled with VERIF_SEED); a run is non-trivial when the contract's precondition holds; distinctness is counted on a sample of the inputs. Bounded, not counted as proved.",
			"samples": samples},
		"notes": notes,
	}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = prop, tier, seed, "proof"
	ev["coverage"], ev["assumptions"], ev["wall_s"], ev["violations"] = cov, as, round(time.Since(t0).Seconds()), len(viols)
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(vdir, "evidence", prop+".json"), b, 0644)

	fmt.Printf("%s: %d contracts discharged, %d undecided, %d bounded; %d/%d obligations; %d native executions; %.1fs\n", prop, ndischargedContracts, undecided, nbounded, discharged, obligations, evals, time.Since(t0).Seconds())
	if len(viols) == 0 {
		if len(rac) == 0 && ndischargedContracts == 0 {
			fmt.Println("nothing could be decided")
			return 2
		}
		return 0
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].input && !viols[j].input })
	v := viols[0]
	rp := filepath.Join(vdir, "evidence", fmt.Sprintf("replay_%s_%s.json", prop, v.contract))
	var others []string
	for _, o := range viols[1:] {
		others = append(others, o.contract+": "+o.what)
	}
	rb, _ := json.MarshalIndent(map[string]any{"property": prop, "contract": v.contract, "what": v.what, "failing_input_found": v.input, "detail": v.detail,
		"also_failing": others, "replay": fmt.Sprintf("cd /verif && VERIF_SEED=%d ./check.sh %s %s", seed, prop, tier)}, "", " ")
	os.WriteFile(rp, rb, 0644)
	suffix := ""
	if !v.input {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("failed: %s: %s\n", v.contract, v.what)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func round(x float64) float64 { return float64(int64(x*1000)) / 1000 }

func verifyAll(ld *Loaded, cs []*Contract, runs []*ContractRun, workers int, limit time.Duration) {
	var wg sync.WaitGroup
	sem := make(chan bool, workers)
	// long ones first, by declared weight
	order := make([]int, len(cs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool { return cs[order[i]].Weight > cs[order[j]].Weight })
	for _, i := range order {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			runs[i] = Verify(ld, cs[i], limit, "")
		}()
	}
	wg.Wait()
}

func pkgName(d string) string {
	if i := strings.LastIndex(d, "__"); i >= 0 {
		return d[i+2:]
	}
	return d
}

func dirOfPkg(path string) string {
	if path == modulePath {
		return "vfilter"
	}
	return strings.ReplaceAll(strings.TrimPrefix(path, modulePath+"/"), "/", "__")
}
