package main

import (
	"runtime/debug"

	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"time"
)

type Answer int

const (
	Unknown Answer = iota
	Unsat
	Sat
)

func (a Answer) String() string { return [...]string{"unknown", "unsat", "sat"}[a] }

type Solver struct {
	eng   *Engine
	ts    *TermStore
	cache map[[32]byte]Answer
	tried map[[32]byte]int
	proc  *z3proc
	// statistics
	Queries   map[string]int // per back end
	Time      map[string]time.Duration
	hasty     bool
	CacheHits int
	Dump      string
	Scale     int
}

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func NewSolver(ts *TermStore) *Solver {
	return &Solver{ts: ts, cache: map[[32]byte]Answer{}, tried: map[[32]byte]int{}, Queries: map[string]int{}, Time: map[string]time.Duration{}}
}

func startZ3() *z3proc {
	cmd := exec.Command("z3", "-in", "-smt2", "-memory:3000")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &z3proc{cmd, in, bufio.NewReader(out)}
}

func (s *Solver) Close() {
	if s.proc != nil {
		s.proc.in.Close()
		s.proc.cmd.Process.Kill()
		s.proc.cmd.Wait()
		s.proc = nil
	}
}

// Check satisfiability of the conjunction. quick: short timeout and no second
// back end (used for path feasibility, where unknown means "explore").
func (s *Solver) Check(conj []*Term, quick bool) (Answer, string) {
	l := 2
	if quick {
		l = 0
	}
	return s.CheckL(conj, l)
}

// CheckL: effort 0 (path feasibility), 1 (invariant candidates), 2 (obligations).
func (s *Solver) CheckL(conj []*Term, level int) (Answer, string) {
	for _, c := range conj {
		if c.Op == "false" {
			return Unsat, ""
		}
	}
	inst, quantified := s.instantiate(conj, false)
	if quantified {
		s.hasty = level == 0
		a, d := s.check1(inst, min(level, 1))
		s.hasty = false
		if a == Unsat {
			return a, d
		}
		if level == 0 {
			return Unknown, d
		}
		if loose, _ := s.instantiate(conj, true); len(loose) > len(inst) {
			if a, d := s.check1(loose, 1); a == Unsat {
				return a, d
			}
		}
	}
	return s.check1(conj, level)
}

// CheckGround: quantified hypotheses count through their instances only.
func (s *Solver) CheckGround(conj []*Term) Answer {
	inst, _ := s.instantiate(conj, false)
	a, _ := s.check1(inst, 1)
	return a
}

var slowDbg = os.Getenv("GVER_SLOW") != ""

func (s *Solver) check1(conj []*Term, level int) (Answer, string) {
	body := s.script(conj)
	key := sha256.Sum256([]byte(body))
	if a, ok := s.cache[key]; ok {
		if a != Unknown || level <= s.tried[key] {
			s.CacheHits++
			return a, "cached"
		}
	}
	to := []int{1500, 2500, 8000}[level] * max(s.Scale, 1)
	if s.hasty {
		// feasibility of a branch: exploring a dead branch costs little
		to = 300
	}
	z := body
	if level == 1 || s.hasty {
		// pattern-driven instantiation only: saturates quickly
		z = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + body
	}
	start := time.Now()
	a, detail := s.runZ3(z, to)
	if slowDbg && time.Since(start) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW level %d %v %v\n", level, time.Since(start), a)
		if os.Getenv("GVER_SLOW") == "2" {
			debug.PrintStack()
		}
	}
	if a == Unknown && level > 1 {
		a, detail = s.runBoth(body, []int{0, 3, 20}[level]*max(s.Scale, 1))
	}
	s.cache[key] = a
	s.tried[key] = level
	return a, detail
}

// runBoth races the two fallback solvers.
func (s *Solver) runBoth(body string, secs int) (Answer, string) {
	type res struct {
		a    Answer
		tool string
		d    time.Duration
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan res, 2)
	tools := []string{"cvc5", "z3-new"}
	for _, t := range tools {
		go func() {
			t0 := time.Now()
			a := runExt(ctx, t, body, secs)
			ch <- res{a, t, time.Since(t0)}
		}()
	}
	out, tool := Unknown, "all"
	for range tools {
		r := <-ch
		s.Time[r.tool] += r.d
		s.Queries[r.tool]++
		if r.a != Unknown && out == Unknown {
			out, tool = r.a, r.tool
			cancel()
		}
	}
	return out, out.String() + " (" + tool + ")"
}

func (s *Solver) runZ3(body string, toMS int) (Answer, string) {
	t0 := time.Now()
	defer func() { s.Time["z3"] += time.Since(t0); s.Queries["z3"]++ }()
	for try := 0; try < 2; try++ {
		if s.proc == nil {
			s.proc = startZ3()
		}
		p := s.proc
		_, err := fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"done\")\n", toMS, body)
		if err != nil {
			s.Close()
			continue
		}
		ans := Unknown
		var errs []string
		ok := false
		type rl struct {
			l string
			e error
		}
		lines := make(chan rl, 16)
		go func() {
			for {
				l, err := p.out.ReadString('\n')
				lines <- rl{strings.TrimSpace(l), err}
				if err != nil || strings.TrimSpace(l) == "done" {
					return
				}
			}
		}()
		deadline := time.After(time.Duration(toMS)*time.Millisecond*3 + 5*time.Second)
	loop:
		for {
			select {
			case r := <-lines:
				if r.e != nil {
					break loop
				}
				switch {
				case r.l == "sat":
					ans = Sat
				case r.l == "unsat":
					ans = Unsat
				case r.l == "done":
					ok = true
					break loop
				case strings.HasPrefix(r.l, "(error"):
					errs = append(errs, r.l)
				}
			case <-deadline:
				break loop
			}
		}
		if len(errs) > 0 {
			os.WriteFile("/tmp/gver_error.smt2", []byte(body), 0644)
			panic("z3 error: " + strings.Join(errs, "\n") + "\n(query in /tmp/gver_error.smt2)")
		}
		if !ok {
			s.Close()
			return Unknown, "z3 killed"
		}
		return ans, ans.String()
	}
	return Unknown, "z3 unavailable"
}

func runExt(ctx context.Context, tool, body string, secs int) Answer {
	var cmd *exec.Cmd
	if tool == "cvc5" {
		cmd = exec.CommandContext(ctx, "cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--fp-exp")
		body = "(set-logic ALL)\n" + body
	} else {
		cmd = exec.CommandContext(ctx, tool, "-in", "-smt2", fmt.Sprintf("-T:%d", secs), "-memory:3000")
	}
	cmd.Stdin = strings.NewReader(body + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

// ---- script generation ----

type emitter struct {
	ts    *TermStore
	decl  strings.Builder
	body  strings.Builder
	seen  map[*Term]bool
	refs  map[*Term]int
	ufs   map[string]bool
	names map[*Term]string
	strs  []*Term
	lits  []*Term
	strat bool
	i2f   []*Term
	strlt []*Term
	stEq  []*Term
	all   []*Term
	wraps bool
	divs  bool
	arrs  []*Term
	muls  []*Term
	idivs []*Term
	impls []*Term
	kinds []*Term
	eng   *Engine
}

func (s *Solver) script(conj []*Term) string {
	ts := s.ts
	e := &emitter{ts: ts, seen: map[*Term]bool{}, refs: map[*Term]int{}, ufs: map[string]bool{}, names: map[*Term]string{}}
	e.eng = s.eng
	for _, c := range conj {
		e.collect(c)
	}
	// axioms, a few rounds because instances create terms
	var ax []*Term
	done := map[string]bool{}
	for round := 0; round < 3; round++ {
		na := e.axioms(done)
		if len(na) == 0 {
			break
		}
		for _, a := range na {
			e.collect(a)
		}
		ax = append(ax, na...)
	}
	all := append(append([]*Term{}, conj...), ax...)
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(define-sort F64 () (_ FloatingPoint 11 53))\n(define-sort F32 () (_ FloatingPoint 8 24))\n")
	sb.WriteString(ts.types.declare())
	if e.wraps {
		for _, b := range []int{8, 16, 32, 64} {
			m := new(big.Int).Lsh(big.NewInt(1), uint(b))
			h := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
			fmt.Fprintf(&sb, "(define-fun wrap%d ((x Int)) Int (ite (and (<= (- %s) x) (< x %s)) x (- (mod (+ x %s) %s) %s)))\n", b, h, h, h, m, h)
			fmt.Fprintf(&sb, "(define-fun uwrap%d ((x Int)) Int (ite (and (<= 0 x) (< x %s)) x (mod x %s)))\n", b, m, m)
		}
	}
	if e.divs {
		sb.WriteString("(define-fun tdiv ((x Int) (y Int)) Int (ite (>= x 0) (ite (> y 0) (div x y) (- (div x (- y)))) (ite (> y 0) (- (div (- x) y)) (div (- x) (- y)))))\n")
		sb.WriteString("(define-fun tmod ((x Int) (y Int)) Int (- x (* y (tdiv x y))))\n")
	}
	if e.strat {
		sb.WriteString("(declare-fun strat (Str Int) Int)\n(assert (forall ((s Str) (i Int)) (! (and (<= 0 (strat s i)) (< (strat s i) 256)) :pattern ((strat s i)))))\n")
	}
	sb.WriteString("(declare-fun strlen (Str) Int)\n")
	sb.WriteString(e.decl.String())
	for i, l := range e.lits {
		e.names[l] = fmt.Sprintf("lit%d", i)
		fmt.Fprintf(&sb, "(declare-const lit%d Str) ; %q\n(assert (= (strlen lit%d) %d))\n", i, trunc(l.Name, 60), i, len(l.Name))
		if e.strat {
			for k := 0; k < len(l.Name) && k < 64; k++ {
				fmt.Fprintf(&sb, "(assert (= (strat lit%d %d) %d))\n", i, k, l.Name[k])
			}
		}
	}
	if len(e.lits) > 1 {
		sb.WriteString("(assert (distinct")
		for i := range e.lits {
			fmt.Fprintf(&sb, " lit%d", i)
		}
		sb.WriteString("))\n")
	}
	// shared ground nodes
	for _, a := range all {
		e.define(&sb, a)
	}
	for _, a := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", e.show(a))
	}
	return sb.String()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (e *emitter) collect(t *Term) {
	e.refs[t]++
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	for _, a := range t.Args {
		e.collect(a)
	}
	e.all = append(e.all, t)
	switch t.Op {
	case "const":
		fmt.Fprintf(&e.decl, "(declare-const |%s| %s)\n", t.Name, t.Sort)
	case "uf":
		sig := t.Name
		if !e.ufs[sig] {
			e.ufs[sig] = true
			if len(t.Args) == 0 {
				fmt.Fprintf(&e.decl, "(declare-const |%s| %s)\n", t.Name, t.Sort)
			} else {
				var as []string
				for _, a := range t.Args {
					as = append(as, string(a.Sort))
				}
				fmt.Fprintf(&e.decl, "(declare-fun |%s| (%s) %s)\n", t.Name, strings.Join(as, " "), t.Sort)
			}
		}
		if t.Name == "bytesOf" && !t.hasBound {
			e.strat = true
			e.arrs = append(e.arrs, t)
		}
		if (t.Name == "rkind" || t.Name == "rlen") && !t.hasBound {
			e.kinds = append(e.kinds, t)
		}
		if strings.HasPrefix(t.Name, "impl$") && !t.hasBound {
			e.impls = append(e.impls, t)
		}
		if t.Name == "imul" && !t.hasBound {
			e.muls = append(e.muls, t)
		}
		if t.Name == "idiv" && !t.hasBound {
			e.idivs = append(e.idivs, t)
		}
		if t.Name == "i2f" && !t.hasBound {
			e.i2f = append(e.i2f, t)
		}
		if t.Name == "strlt" && !t.hasBound {
			e.strlt = append(e.strlt, t)
		}
	case "str":
		e.lits = append(e.lits, t)
	case "strat":
		e.strat = true
	case "wrap":
		e.wraps = true
	case "tdiv", "tmod":
		e.divs = true
	case "arrcopy":
		n := "arrcopy" + sanitize(string(t.Sort))
		if !e.ufs[n] {
			e.ufs[n] = true
			fmt.Fprintf(&e.decl, "(declare-fun %s (%s Int %s Int Int) %s)\n", n, t.Sort, t.Sort, t.Sort)
		}
		if !t.hasBound {
			e.arrs = append(e.arrs, t)
		}
	case "bytes2str":
		e.strat = true
		if !e.ufs["bytes2str"] {
			e.ufs["bytes2str"] = true
			e.decl.WriteString("(declare-fun bytes2str ((Array Int Int) Int Int) Str)\n")
		}
	case "=":
		if t.Args[0].Sort == SStr && !t.hasBound {
			e.stEq = append(e.stEq, t)
		}
	case "concat":
		n := fmt.Sprintf("concat%d", len(t.Args))
		if !e.ufs[n] {
			e.ufs[n] = true
			fmt.Fprintf(&e.decl, "(declare-fun %s (%s) Str)\n", n, strings.TrimSpace(strings.Repeat("Str ", len(t.Args))))
		}
	case "substr":
		if !e.ufs["substr"] {
			e.ufs["substr"] = true
			e.decl.WriteString("(declare-fun substr (Str Int Int) Str)\n")
		}
	}
	if t.Sort == SStr && !t.hasBound {
		e.strs = append(e.strs, t)
	}
}

func (e *emitter) axioms(done map[string]bool) []*Term {
	ts := e.ts
	var out []*Term
	once := func(k string, f func() *Term) {
		if done[k] {
			return
		}
		done[k] = true
		if t := f(); t.Op != "true" {
			out = append(out, t)
		}
	}
	rawlen := func(s *Term) *Term { return ts.mk("strlen", "", SInt, s) }
	maxlen := ts.IntB(new(big.Int).Lsh(big.NewInt(1), 48))
	for _, s := range append([]*Term{}, e.strs...) {
		s := s
		once(fmt.Sprintf("sl%d", s.ID), func() *Term {
			if s.Op == "str" {
				return ts.True
			}
			l := rawlen(s)
			cs := []*Term{ts.Le(ts.IntC(0), l), ts.Le(l, maxlen),
				ts.Or(ts.Not(ts.Eq(l, ts.IntC(0))), ts.mk("=", "", SBool, s, ts.StrC("")))}
			if s.Op == "bytes2str" {
				cs = append(cs, ts.Implies(ts.Le(ts.IntC(0), s.Args[2]), ts.Eq(l, s.Args[2])))
			}
			if s.Op == "concat" {
				cs = append(cs, ts.Eq(l, ts.StrLen(s)))
			}
			if s.Op == "substr" {
				i, j := s.Args[1], s.Args[2]
				g := ts.And(ts.Le(ts.IntC(0), i), ts.Le(i, j), ts.Le(j, ts.StrLen(s.Args[0])))
				cs = append(cs, ts.Implies(g, ts.Eq(l, ts.Sub(j, i))))
			}
			return ts.And(cs...)
		})
		if e.strat && s.Op == "bytes2str" {
			once(fmt.Sprintf("sa%d", s.ID), func() *Term {
				k := ts.Bound("k", SInt)
				at := ts.mk("strat", "", SInt, s, k)
				g := ts.And(ts.Le(ts.IntC(0), k), ts.Lt(k, s.Args[2]))
				return ts.mk("forallp", "", SBool, k, ts.Implies(g, ts.Eq(at, ts.Select(s.Args[0], ts.Add(s.Args[1], k)))), at)
			})
		}
		if e.strat && (s.Op == "concat" || s.Op == "substr") {
			once(fmt.Sprintf("sa%d", s.ID), func() *Term {
				k := ts.Bound("k", SInt)
				at := ts.mk("strat", "", SInt, s, k)
				if s.Op == "substr" {
					i, j := s.Args[1], s.Args[2]
					g := ts.And(ts.Le(ts.IntC(0), i), ts.Le(i, j), ts.Le(j, ts.StrLen(s.Args[0])),
						ts.Le(ts.IntC(0), k), ts.Lt(k, ts.Sub(j, i)))
					return ts.mk("forallp", "", SBool, k, ts.Implies(g, ts.Eq(at, ts.StrAt(s.Args[0], ts.Add(i, k)))), at)
				}
				off := ts.IntC(0)
				var cs []*Term
				for _, p := range s.Args {
					end := ts.Add(off, ts.StrLen(p))
					g := ts.And(ts.Le(off, k), ts.Lt(k, end))
					cs = append(cs, ts.Implies(g, ts.Eq(at, ts.StrAt(p, ts.Sub(k, off)))))
					off = end
				}
				return ts.mk("forallp", "", SBool, k, ts.And(cs...), at)
			})
		}
	}
	if e.strat {
		for _, q := range append([]*Term{}, e.stEq...) {
			q := q
			once(fmt.Sprintf("ex%d", q.ID), func() *Term {
				a, b := q.Args[0], q.Args[1]
				d := ts.UF("strdiff", SInt, a, b)
				return ts.Or(q, ts.Not(ts.Eq(rawlen(a), rawlen(b))),
					ts.And(ts.Le(ts.IntC(0), d), ts.Lt(d, rawlen(a)),
						ts.Not(ts.Eq(ts.StrAt(a, d), ts.StrAt(b, d)))))
			})
		}
	}
	for _, a := range append([]*Term{}, e.arrs...) {
		a := a
		once(fmt.Sprintf("ac%d", a.ID), func() *Term {
			k := ts.Bound("k", SInt)
			at := ts.mk("select", "", a.Sort.elem(), a, k)
			return ts.mk("forallp", "", SBool, k, ts.Eq(at, ts.Select(a, k)), at)
		})
	}
	for _, t := range append([]*Term{}, e.impls...) {
		t := t
		once(fmt.Sprintf("im%d", t.ID), func() *Term {
			it := e.eng.ifaces[t.Name[5:]]
			x := t.Args[0]
			cs := []*Term{ts.Implies(ts.Is("anil", x), ts.Not(t))}
			for _, c := range ts.types.order {
				v := t
				if !types.Implements(c.Type, it) {
					v = ts.Not(t)
				}
				cs = append(cs, ts.Implies(ts.Is(c.Name, x), v))
			}
			return ts.And(cs...)
		})
	}
	for _, t := range append([]*Term{}, e.kinds...) {
		t := t
		once(fmt.Sprintf("kd%d", t.ID), func() *Term {
			x := t.Args[0]
			var cs []*Term
			for _, c := range ts.types.order {
				if t.Name == "rkind" {
					cs = append(cs, ts.Implies(ts.Is(c.Name, x), ts.Eq(t, ts.IntC(int64(kindOf(c.Type))))))
				} else {
					switch kindOf(c.Type) {
					case reflect.Slice:
						cs = append(cs, ts.Implies(ts.Is(c.Name, x), ts.Eq(t, ts.Sel(c.Name, 2, x))))
					case reflect.String:
						cs = append(cs, ts.Implies(ts.Is(c.Name, x), ts.Eq(t, ts.StrLen(ts.Sel(c.Name, 0, x)))))
					}
				}
			}
			return ts.And(cs...)
		})
	}
	z := ts.IntC(0)
	for _, t := range append([]*Term{}, e.idivs...) {
		t := t
		once(fmt.Sprintf("id%d", t.ID), func() *Term {
			c, d := t.Args[0], t.Args[1]
			m := ts.Mul(t, d)
			pc, pd := ts.Le(z, c), ts.Lt(z, d)
			nd := ts.Lt(d, z)
			return ts.And(
				ts.Implies(ts.And(pc, pd), ts.And(ts.Le(z, t), ts.Le(t, c), ts.Le(m, c), ts.Lt(c, ts.Add(m, d)))),
				ts.Implies(ts.And(pc, nd), ts.And(ts.Le(t, z), ts.Le(m, c), ts.Lt(c, ts.Sub(m, d)))),
				ts.Implies(ts.And(ts.Not(pc), pd), ts.And(ts.Le(t, z), ts.Le(c, t), ts.Le(c, m), ts.Lt(ts.Sub(m, d), c))),
				ts.Implies(ts.And(ts.Not(pc), nd), ts.And(ts.Le(z, t), ts.Le(c, m), ts.Lt(ts.Add(m, d), c))))
		})
	}
	for i, t := range append([]*Term{}, e.muls...) {
		t := t
		once(fmt.Sprintf("im%d", t.ID), func() *Term {
			a, b := t.Args[0], t.Args[1]
			one := ts.IntC(1)
			return ts.And(
				ts.Implies(ts.Or(ts.Eq(a, z), ts.Eq(b, z)), ts.Eq(t, z)),
				ts.Implies(ts.Eq(a, one), ts.Eq(t, b)), ts.Implies(ts.Eq(b, one), ts.Eq(t, a)),
				ts.Implies(ts.And(ts.Lt(z, a), ts.Lt(z, b)), ts.And(ts.Le(a, t), ts.Le(b, t))),
				ts.Implies(ts.And(ts.Lt(z, a), ts.Lt(b, z)), ts.And(ts.Le(t, ts.Neg(a)), ts.Le(t, b))),
				ts.Implies(ts.And(ts.Lt(a, z), ts.Lt(z, b)), ts.And(ts.Le(t, a), ts.Le(t, ts.Neg(b)))),
				ts.Implies(ts.And(ts.Lt(a, z), ts.Lt(b, z)), ts.And(ts.Le(ts.Neg(a), t), ts.Le(ts.Neg(b), t))))
		})
		for j := 0; j < i && j < 10; j++ {
			u := e.muls[j]
			for _, p := range [][4]int{{0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 1}, {1, 0, 1, 0}} {
				x, d, y, d2 := t.Args[p[0]], t.Args[p[1]], u.Args[p[2]], u.Args[p[3]]
				if d != d2 {
					continue
				}
				once(fmt.Sprintf("imm%d_%d_%d", t.ID, u.ID, d.ID), func() *Term {
					return ts.And(
						ts.Implies(ts.And(ts.Le(z, d), ts.Le(x, y)), ts.Le(t, u)),
						ts.Implies(ts.And(ts.Le(z, d), ts.Le(y, x)), ts.Le(u, t)),
						ts.Implies(ts.And(ts.Lt(z, d), ts.Lt(x, y)), ts.Le(ts.Add(t, d), u)),
						ts.Implies(ts.And(ts.Lt(z, d), ts.Lt(y, x)), ts.Le(ts.Add(u, d), t)))
				})
			}
		}
	}
	zero := ts.F64C(0)
	for i, t := range e.i2f {
		t := t
		once(fmt.Sprintf("if%d", t.ID), func() *Term {
			x := t.Args[0]
			return ts.And(ts.FCmp("fp.eq", t, t),
				ts.mk("ffinite", "", SBool, t),
				ts.Implies(ts.Eq(x, ts.IntC(0)), ts.mk("=", "", SBool, t, zero)),
				ts.Implies(ts.Le(ts.IntC(1), x), ts.FCmp("fp.leq", ts.F64C(1), t)),
				ts.Implies(ts.Le(x, ts.IntC(-1)), ts.FCmp("fp.leq", t, ts.F64C(-1))))
		})
		for j := 0; j < i && j < 8; j++ {
			u := e.i2f[j]
			once(fmt.Sprintf("if%d_%d", t.ID, u.ID), func() *Term {
				return ts.And(ts.Implies(ts.Le(t.Args[0], u.Args[0]), ts.FCmp("fp.leq", t, u)),
					ts.Implies(ts.Le(u.Args[0], t.Args[0]), ts.FCmp("fp.leq", u, t)))
			})
		}
	}
	for _, t := range append([]*Term{}, e.strlt...) {
		t := t
		once(fmt.Sprintf("lt%d", t.ID), func() *Term {
			a, b := t.Args[0], t.Args[1]
			r := ts.UF("strlt", SBool, b, a)
			eq := ts.Eq(a, b)
			return ts.And(ts.Or(t, r, eq), ts.Not(ts.And(t, r)), ts.Not(ts.And(t, eq)), ts.Not(ts.And(r, eq)))
		})
	}
	return out
}

func leafOp(t *Term) bool {
	switch t.Op {
	case "true", "false", "int", "f64", "str", "const", "bound":
		return true
	}
	return len(t.Args) == 0
}

func (e *emitter) define(sb *strings.Builder, t *Term) {
	if _, ok := e.names[t]; ok || leafOp(t) {
		return
	}
	for _, a := range t.Args {
		e.define(sb, a)
	}
	if e.refs[t] > 1 && !t.hasBound {
		x := e.show(t)
		n := fmt.Sprintf("t%d", t.ID)
		fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", n, t.Sort, x)
		e.names[t] = n
	}
}

func (e *emitter) show(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return smtInt(t.Int)
	case "f64":
		b := math.Float64bits(t.F)
		if t.F != t.F {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
	case "const", "bound":
		return "|" + t.Name + "|"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, e.show(a))
	}
	j := strings.Join(as, " ")
	switch t.Op {
	case "not", "and", "or", "ite", "=", "<=", "+", "select", "store":
		return "(" + t.Op + " " + j + ")"
	case "cmul":
		return "(* " + j + ")"
	case "wrap":
		return "(" + t.Name + " " + j + ")"
	case "constarr":
		return "((as const " + t.Name + ") " + j + ")"
	case "cons":
		if len(as) == 0 {
			return t.Name
		}
		return "(" + t.Name + " " + j + ")"
	case "is":
		return "((_ is " + t.Name + ") " + j + ")"
	case "sel":
		return "(" + strings.Replace(t.Name, "#", "_", 1) + " " + j + ")"
	case "uf":
		if len(as) == 0 {
			return "|" + t.Name + "|"
		}
		return "(|" + t.Name + "| " + j + ")"
	case "fop":
		switch t.Name {
		case "fp.neg", "fp.abs":
			return "(" + t.Name + " " + j + ")"
		case "f32to64":
			return "((_ to_fp 11 53) RNE " + j + ")"
		case "f64to32":
			return "((_ to_fp 8 24) RNE " + j + ")"
		}
		return "(" + t.Name + " RNE " + j + ")"
	case "fcmp":
		return "(" + t.Name + " " + j + ")"
	case "ffinite":
		return "(not (or (fp.isNaN " + j + ") (fp.isInfinite " + j + ")))"
	case "tdiv", "tmod", "bytes2str":
		return "(" + t.Op + " " + j + ")"
	case "arrcopy":
		return "(arrcopy" + sanitize(string(t.Sort)) + " " + j + ")"
	case "strlen":
		return "(strlen " + j + ")"
	case "strat":
		return "(strat " + j + ")"
	case "substr":
		return "(substr " + j + ")"
	case "concat":
		return fmt.Sprintf("(concat%d %s)", len(as), j)
	case "forall":
		if len(t.Args) > 3 {
			return fmt.Sprintf("(forall ((%s %s)) (! %s :pattern (%s)))", as[0], t.Args[0].Sort, as[1], as[3])
		}
		return fmt.Sprintf("(forall ((%s %s)) %s)", as[0], t.Args[0].Sort, as[1])
	case "forallp":
		return fmt.Sprintf("(forall ((%s %s)) (! %s :pattern (%s)))", as[0], t.Args[0].Sort, as[1], as[2])
	}
	panic("show: " + t.Op)
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}
