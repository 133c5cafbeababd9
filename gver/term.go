package main

// Hash-consed SMT terms with a simplifying constructor layer.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SF64  Sort = "F64"
	SF32  Sort = "F32"
	SSeq  Sort = "Seq"
)

func ArrSort(v Sort) Sort     { return Sort("(Array Int " + string(v) + ")") }
func KArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (s Sort) elem() Sort {
	t := string(s)
	if strings.HasPrefix(t, "(Array ") {
		r := t[len("(Array "):]
		i := strings.IndexByte(r, ' ')
		return Sort(r[i+1 : len(r)-1])
	}
	panic("not an array sort: " + t)
}

type Term struct {
	Op   string // see constructors
	Name string // constants, uninterpreted functions, constructors
	Sort Sort
	Args []*Term
	Int  *big.Int // Op "int"
	F    float64  // Op "f64"
	ID   int
	// hasBound: contains a quantified variable
	hasBound bool
	// linear decomposition cache not needed
}

type TermStore struct {
	tab     map[string]*Term
	next    int
	fresh   int
	types   *TypeReg
	True    *Term
	False   *Term
	heapKey map[*Term]string // part of the heap a constant array stands for
}

func NewTermStore(tr *TypeReg) *TermStore {
	ts := &TermStore{tab: map[string]*Term{}, types: tr, heapKey: map[*Term]string{}}
	ts.True = ts.mk("true", "", SBool)
	ts.False = ts.mk("false", "", SBool)
	return ts
}

func (ts *TermStore) mk(op, name string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(name)
	sb.WriteByte(0)
	sb.WriteString(string(s))
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.next++
	t := &Term{Op: op, Name: name, Sort: s, Args: args, ID: ts.next}
	if op == "bound" {
		t.hasBound = true
	}
	for _, a := range args {
		if a.hasBound {
			t.hasBound = true
		}
	}
	ts.tab[k] = t
	return t
}

func (ts *TermStore) Const(name string, s Sort) *Term { return ts.mk("const", name, s) }
func (ts *TermStore) Fresh(hint string, s Sort) *Term {
	ts.fresh++
	return ts.mk("const", fmt.Sprintf("%s!%d", sanitize(hint), ts.fresh), s)
}
func (ts *TermStore) Bound(hint string, s Sort) *Term {
	ts.fresh++
	return ts.mk("bound", fmt.Sprintf("%s!%d", sanitize(hint), ts.fresh), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '$':
			sb.WriteRune(c)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (ts *TermStore) IntB(v *big.Int) *Term {
	t := ts.mk("int", v.String(), SInt)
	if t.Int == nil {
		t.Int = new(big.Int).Set(v)
	}
	return t
}
func (ts *TermStore) IntC(v int64) *Term { return ts.IntB(big.NewInt(v)) }

func (ts *TermStore) F64C(v float64) *Term {
	t := ts.mk("f64", fmt.Sprintf("%x", math.Float64bits(v)), SF64)
	t.F = v
	return t
}

func (ts *TermStore) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *TermStore) StrC(s string) *Term { return ts.mk("str", s, SStr) }

// Uninterpreted (or specially axiomatised) function application.
func (ts *TermStore) UF(name string, s Sort, args ...*Term) *Term {
	return ts.mk("uf", name, s, args...)
}

func (ts *TermStore) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return ts.False
	case "false":
		return ts.True
	case "not":
		return a.Args[0]
	}
	return ts.mk("not", "", SBool, a)
}

func (ts *TermStore) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "true" {
			return true
		}
		if t.Op == "false" {
			return false
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[ts.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return ts.False
		}
	}
	if len(out) == 0 {
		return ts.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return ts.mk("and", "", SBool, out...)
}

func (ts *TermStore) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "false" {
			return true
		}
		if t.Op == "true" {
			return false
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[ts.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return ts.True
		}
	}
	if len(out) == 0 {
		return ts.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return ts.mk("or", "", SBool, out...)
}

func (ts *TermStore) Implies(a, b *Term) *Term { return ts.Or(ts.Not(a), b) }

func (ts *TermStore) Ite(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return ts.Not(c)
		}
		if a.Op == "true" {
			return ts.Or(c, b)
		}
		if a.Op == "false" {
			return ts.And(ts.Not(c), b)
		}
		if b.Op == "true" {
			return ts.Or(ts.Not(c), a)
		}
		if b.Op == "false" {
			return ts.And(c, a)
		}
	}
	if c.Op == "not" {
		return ts.mk("ite", "", a.Sort, c.Args[0], b, a)
	}
	return ts.mk("ite", "", a.Sort, c, a, b)
}

func isConstLike(t *Term) bool {
	switch t.Op {
	case "int", "str", "true", "false":
		return true
	}
	return false
}

func (ts *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if a.Op == "false" {
			return ts.Not(b)
		}
		if b.Op == "true" {
			return a
		}
		if b.Op == "false" {
			return ts.Not(a)
		}
		if a == ts.Not(b) {
			return ts.False
		}
	}
	if isConstLike(a) && isConstLike(b) {
		return ts.False // distinct hash-consed constants
	}
	if a.Op == "cons" && b.Op == "cons" {
		if a.Name != b.Name {
			return ts.False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, ts.Eq(a.Args[i], b.Args[i]))
		}
		return ts.And(cs...)
	}
	if a.Sort == SInt {
		// canonical linear difference
		d := ts.Sub(a, b)
		if d.Op == "int" {
			return ts.Bool(d.Int.Sign() == 0)
		}
	}
	// ite pull-up when branches decide against a constant-like
	if a.Op == "ite" && (isConstLike(b) || b.Op == "cons") {
		x, y := ts.Eq(a.Args[1], b), ts.Eq(a.Args[2], b)
		if isConstLike(x) || isConstLike(y) {
			return ts.Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && (isConstLike(a) || a.Op == "cons") {
		return ts.Eq(b, a)
	}
	if a.Op == "cons" && b.Op != "cons" && ts.types != nil {
		// x = C(args)  ==>  is-C(x) && args equal
		if b.Sort == SAny || b.Sort == SSeq {
			cs := []*Term{ts.Is(a.Name, b)}
			for i := range a.Args {
				cs = append(cs, ts.Eq(ts.Sel(a.Name, i, b), a.Args[i]))
			}
			return ts.And(cs...)
		}
	}
	if b.Op == "cons" && a.Op != "cons" {
		return ts.Eq(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.mk("=", "", SBool, a, b)
}

// ---- integers: canonical linear sums ----

type linear struct {
	c  *big.Int
	ms map[*Term]*big.Int
}

func (ts *TermStore) lin(t *Term) linear {
	l := linear{big.NewInt(0), map[*Term]*big.Int{}}
	ts.linAdd(&l, t, big.NewInt(1))
	return l
}

func (ts *TermStore) linAdd(l *linear, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.Int, k))
	case "+":
		for _, a := range t.Args {
			ts.linAdd(l, a, k)
		}
	case "cmul": // Args[0] const, Args[1]
		ts.linAdd(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
	default:
		if v, ok := l.ms[t]; ok {
			v = new(big.Int).Add(v, k)
			if v.Sign() == 0 {
				delete(l.ms, t)
			} else {
				l.ms[t] = v
			}
		} else {
			l.ms[t] = new(big.Int).Set(k)
		}
	}
}

func (ts *TermStore) unlin(l linear) *Term {
	var keys []*Term
	for k := range l.ms {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	var args []*Term
	for _, k := range keys {
		v := l.ms[k]
		if v.Cmp(big.NewInt(1)) == 0 {
			args = append(args, k)
		} else {
			args = append(args, ts.mk("cmul", "", SInt, ts.IntB(v), k))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, ts.IntB(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return ts.mk("+", "", SInt, args...)
}

func (ts *TermStore) Add(a, b *Term) *Term {
	l := ts.lin(a)
	ts.linAdd(&l, b, big.NewInt(1))
	return ts.unlin(l)
}
func (ts *TermStore) Sub(a, b *Term) *Term {
	l := ts.lin(a)
	ts.linAdd(&l, b, big.NewInt(-1))
	return ts.unlin(l)
}
func (ts *TermStore) Neg(a *Term) *Term { return ts.Sub(ts.IntC(0), a) }

func (ts *TermStore) Mul(a, b *Term) *Term {
	if a.Op == "int" {
		l := linear{big.NewInt(0), map[*Term]*big.Int{}}
		ts.linAdd(&l, b, a.Int)
		for k, v := range l.ms {
			if v.Sign() == 0 {
				delete(l.ms, k)
			}
		}
		return ts.unlin(l)
	}
	if b.Op == "int" {
		return ts.Mul(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.UF("imul", SInt, a, b)
}

func (ts *TermStore) Le(a, b *Term) *Term {
	d := ts.Sub(a, b) // d <= 0
	if d.Op == "int" {
		return ts.Bool(d.Int.Sign() <= 0)
	}
	return ts.mk("<=", "", SBool, a, b)
}
func (ts *TermStore) Lt(a, b *Term) *Term {
	return ts.Not(ts.Le(b, a))
}
func (ts *TermStore) Ge(a, b *Term) *Term { return ts.Le(b, a) }
func (ts *TermStore) Gt(a, b *Term) *Term { return ts.Lt(b, a) }

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)
var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return big.NewInt(0), new(big.Int).Sub(h, big.NewInt(1))
}

func wrapBig(v *big.Int, bits int, signed bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	r := new(big.Int).Mod(v, m)
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		if r.Cmp(h) >= 0 {
			r.Sub(r, m)
		}
	}
	return r
}

// Wrap: reduce an unbounded integer to a machine width. inRange tells the
// caller already knows no reduction is needed.
// absorb drops inner wraps that a wrap to bits makes redundant.
func (ts *TermStore) absorb(t *Term, bits int) *Term {
	if t.Op != "+" {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = a
		if a.Op == "wrap" {
			if ib, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(a.Name, "u"), "wrap")); ib >= bits {
				args[i] = a.Args[0]
				ch = true
			}
		}
	}
	if !ch {
		return t
	}
	r := args[0]
	for _, a := range args[1:] {
		r = ts.Add(r, a)
	}
	return r
}

func (ts *TermStore) Wrap(t *Term, bits int, signed bool) *Term {
	if t.Op == "int" {
		return ts.IntB(wrapBig(t.Int, bits, signed))
	}
	n := fmt.Sprintf("wrap%d", bits)
	if !signed {
		n = fmt.Sprintf("uwrap%d", bits)
	}
	if t.Op == "wrap" && t.Name == n {
		return t
	}
	if t.Op == "wrap" {
		// inner wrap to at least as many bits is absorbed
		ib, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(t.Name, "u"), "wrap"))
		if ib >= bits {
			return ts.Wrap(t.Args[0], bits, signed)
		}
	}
	return ts.mk("wrap", n, SInt, t)
}

// ---- arrays ----

func (ts *TermStore) Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			e := ts.Eq(a.Args[1], i)
			if e.Op == "true" {
				return a.Args[2]
			}
			if e.Op == "false" || ts.distinctRefs(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "uf" && a.Name == "bytesOf" {
			return ts.StrAt(a.Args[0], i)
		}
		if a.Op == "arrcopy" {
			dst, do, src, so, n := a.Args[0], a.Args[1], a.Args[2], a.Args[3], a.Args[4]
			c := ts.And(ts.Le(do, i), ts.Lt(i, ts.Add(do, n)))
			return ts.Ite(c, ts.Select(src, ts.Add(so, ts.Sub(i, do))), ts.Select(dst, i))
		}
		if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "constarr") {
			return ts.Ite(a.Args[0], ts.Select(a.Args[1], i), ts.Select(a.Args[2], i))
		}
		break
	}
	return ts.mk("select", "", a.Sort.elem(), a, i)
}

var refBase = new(big.Int).Lsh(big.NewInt(1), 70)

// Allocation-based disjointness: numerals above refBase are objects allocated
// on this path, entry-state references are <= 0 (marked by name prefix "E$").
func (ts *TermStore) distinctRefs(a, b *Term) bool {
	if a.Op == "int" && a.Int.Cmp(refBase) > 0 && isOld(b) {
		return true
	}
	if b.Op == "int" && b.Int.Cmp(refBase) > 0 && isOld(a) {
		return true
	}
	return false
}

// isOld: the term denotes (a component of) a value that existed in the entry
// state, so any reference in it is nil or older than everything allocated on
// the path.
func isOld(t *Term) bool {
	switch t.Op {
	case "const":
		return strings.HasPrefix(t.Name, "in$") || strings.HasPrefix(t.Name, "H0$")
	case "select", "sel":
		return isOld(t.Args[0])
	case "store":
		return false
	}
	return false
}

func (ts *TermStore) Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return ts.mk("store", "", a.Sort, a, i, v)
}
func (ts *TermStore) ConstArr(s Sort, v *Term) *Term { return ts.mk("constarr", string(s), s, v) }

// ---- datatypes ----

func (ts *TermStore) Cons(s Sort, name string, args ...*Term) *Term {
	return ts.mk("cons", name, s, args...)
}
func (ts *TermStore) Is(name string, t *Term) *Term {
	if t.Op == "cons" {
		return ts.Bool(t.Name == name)
	}
	if t.Op == "ite" {
		x, y := ts.Is(name, t.Args[1]), ts.Is(name, t.Args[2])
		if isConstLike(x) || isConstLike(y) {
			return ts.Ite(t.Args[0], x, y)
		}
	}
	return ts.mk("is", name, SBool, t)
}
func (ts *TermStore) Sel(name string, i int, t *Term) *Term {
	if t.Op == "cons" && t.Name == name {
		return t.Args[i]
	}
	return ts.mk("sel", name+"#"+strconv.Itoa(i), ts.types.fieldSort(name, i), t)
}

// Sequences (snoc lists of Any) used for ghost channel contents and traces.
func (ts *TermStore) SeqNil() *Term { return ts.Cons(SSeq, "snil") }
func (ts *TermStore) Snoc(s, v *Term) *Term {
	return ts.Cons(SSeq, "snoc", s, v)
}

// ---- floats ----

func (ts *TermStore) FOp(op string, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if a.Op != "f64" {
			allc = false
		}
	}
	if allc {
		switch op {
		case "fp.add":
			return ts.F64C(args[0].F + args[1].F)
		case "fp.sub":
			return ts.F64C(args[0].F - args[1].F)
		case "fp.mul":
			return ts.F64C(args[0].F * args[1].F)
		case "fp.div":
			return ts.F64C(args[0].F / args[1].F)
		case "fp.neg":
			return ts.F64C(-args[0].F)
		}
	}
	if (op == "fp.add" || op == "fp.mul") && args[0].ID > args[1].ID {
		args = []*Term{args[1], args[0]}
	}
	return ts.mk("fop", op, args[0].Sort, args...)
}
func (ts *TermStore) FCmp(op string, a, b *Term) *Term {
	switch op {
	case "fp.gt":
		op, a, b = "fp.lt", b, a
	case "fp.geq":
		op, a, b = "fp.leq", b, a
	case "fp.eq":
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	if a.Op == "f64" && b.Op == "f64" {
		switch op {
		case "fp.lt":
			return ts.Bool(a.F < b.F)
		case "fp.leq":
			return ts.Bool(a.F <= b.F)
		case "fp.eq":
			return ts.Bool(a.F == b.F)
		}
	}
	return ts.mk("fcmp", op, SBool, a, b)
}
func (ts *TermStore) I2F(t *Term, s Sort) *Term {
	if t.Op == "int" && s == SF64 {
		f, _ := new(big.Float).SetInt(t.Int).Float64()
		return ts.F64C(f)
	}
	if s == SF64 {
		return ts.UF("i2f", SF64, t)
	}
	return ts.UF("i2f32", SF32, t)
}

// ---- strings ----

func (ts *TermStore) StrLen(s *Term) *Term {
	switch s.Op {
	case "str":
		return ts.IntC(int64(len(s.Name)))
	case "concat":
		r := ts.IntC(0)
		for _, a := range s.Args {
			r = ts.Add(r, ts.StrLen(a))
		}
		return r
	case "substr":
		return ts.Sub(s.Args[2], s.Args[1])
	case "bytes2str":
		return s.Args[2]
	case "ite":
		x, y := ts.StrLen(s.Args[1]), ts.StrLen(s.Args[2])
		return ts.Ite(s.Args[0], x, y)
	}
	return ts.mk("strlen", "", SInt, s)
}
func (ts *TermStore) StrAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" && i.Int.IsInt64() {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return ts.IntC(int64(s.Name[k]))
		}
	}
	if s.Op == "substr" {
		return ts.StrAt(s.Args[0], ts.Add(s.Args[1], i))
	}
	if s.Op == "bytes2str" {
		return ts.Select(s.Args[0], ts.Add(s.Args[1], i))
	}
	if s.Op == "concat" {
		// a part of known length with a known place in it
		off := ts.IntC(0)
		for _, a := range s.Args {
			l := ts.StrLen(a)
			if d := ts.Sub(i, off); d.Op == "int" && l.Op == "int" && d.Int.Sign() >= 0 && d.Int.Cmp(l.Int) < 0 {
				return ts.StrAt(a, d)
			}
			off = ts.Add(off, l)
		}
	}
	return ts.mk("strat", "", SInt, s, i)
}
func (ts *TermStore) Concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.Op == "str" {
			if t.Name == "" {
				return
			}
			if n := len(parts); n > 0 && parts[n-1].Op == "str" {
				parts[n-1] = ts.StrC(parts[n-1].Name + t.Name)
				return
			}
		}
		if t.Op == "substr" {
			if n := len(parts); n > 0 && parts[n-1].Op == "substr" && parts[n-1].Args[0] == t.Args[0] &&
				parts[n-1].Args[2] == t.Args[1] {
				parts[n-1] = ts.Substr(t.Args[0], parts[n-1].Args[1], t.Args[2])
				return
			}
		}
		parts = append(parts, t)
	}
	for _, x := range []*Term{a, b} {
		if x.Op == "concat" {
			for _, y := range x.Args {
				add(y)
			}
		} else {
			add(x)
		}
	}
	if len(parts) == 0 {
		return ts.StrC("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return ts.mk("concat", "", SStr, parts...)
}
func (ts *TermStore) Substr(s, i, j *Term) *Term {
	if i == j {
		return ts.StrC("")
	}
	if i.Op == "int" && i.Int.Sign() == 0 && ts.StrLen(s) == j {
		return s
	}
	if s.Op == "str" && i.Op == "int" && j.Op == "int" && i.Int.IsInt64() && j.Int.IsInt64() {
		a, b := i.Int.Int64(), j.Int.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.Name)) {
			return ts.StrC(s.Name[a:b])
		}
	}
	if s.Op == "concat" {
		// whole parts, and pieces of those of known length
		off := ts.IntC(0)
		r := ts.StrC("")
		on := false
		for _, a := range s.Args {
			l := ts.StrLen(a)
			end := ts.Add(off, l)
			from, to := ts.Sub(i, off), ts.Sub(j, off)
			in := func(d *Term) bool {
				return d == l || d.Op == "int" && d.Int.Sign() >= 0 && l.Op == "int" && d.Int.Cmp(l.Int) <= 0
			}
			lo, hi := ts.IntC(0), l
			if !on {
				if from.Op == "int" && from.Int.Sign() == 0 || in(from) && from != l {
					lo, on = from, true
				}
			}
			if on {
				last := in(to)
				if last {
					hi = to
				}
				r = ts.Concat(r, ts.Substr(a, lo, hi))
				if last {
					return r
				}
			}
			off = end
		}
	}
	if s.Op == "substr" {
		return ts.Substr(s.Args[0], ts.Add(s.Args[1], i), ts.Add(s.Args[1], j))
	}
	return ts.mk("substr", "", SStr, s, i, j)
}

func (ts *TermStore) Forall(v, body *Term) *Term {
	if !body.hasBound {
		return body
	}
	if body.Op == "true" {
		return body
	}
	return ts.mk("forall", "", SBool, v, body)
}

// ForallF: a quantifier with facts that hold of every value of the bound
// variable; they are used when the quantifier is instantiated and are no part
// of its meaning.
func (ts *TermStore) ForallF(v, body, facts *Term) *Term {
	if facts.Op == "true" || !body.hasBound || body.Op == "true" {
		return ts.Forall(v, body)
	}
	return ts.mk("forall", "", SBool, v, body, facts)
}

func (ts *TermStore) Mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if t.ID < x.ID || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces constants/bounds by terms.
func (ts *TermStore) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = ts.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (ts *TermStore) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return ts.Not(args[0])
	case "and":
		return ts.And(args...)
	case "or":
		return ts.Or(args...)
	case "ite":
		return ts.Ite(args[0], args[1], args[2])
	case "=":
		return ts.Eq(args[0], args[1])
	case "+":
		r := ts.IntC(0)
		for _, a := range args {
			r = ts.Add(r, a)
		}
		return r
	case "cmul":
		return ts.Mul(args[0], args[1])
	case "<=":
		return ts.Le(args[0], args[1])
	case "select":
		return ts.Select(args[0], args[1])
	case "store":
		return ts.Store(args[0], args[1], args[2])
	case "is":
		return ts.Is(t.Name, args[0])
	case "sel":
		k := strings.LastIndexByte(t.Name, '#')
		i, _ := strconv.Atoi(t.Name[k+1:])
		return ts.Sel(t.Name[:k], i, args[0])
	case "strlen":
		return ts.StrLen(args[0])
	case "strat":
		return ts.StrAt(args[0], args[1])
	case "concat":
		r := ts.StrC("")
		for _, a := range args {
			r = ts.Concat(r, a)
		}
		return r
	case "substr":
		return ts.Substr(args[0], args[1], args[2])
	case "fop":
		return ts.FOp(t.Name, args...)
	case "fcmp":
		return ts.FCmp(t.Name, args[0], args[1])
	case "uf":
		if t.Name == "imul" {
			return ts.Mul(args[0], args[1])
		}
		if t.Name == "i2f" {
			return ts.I2F(args[0], SF64)
		}
	case "wrap":
		n := strings.TrimPrefix(t.Name, "u")
		b, _ := strconv.Atoi(strings.TrimPrefix(n, "wrap"))
		return ts.Wrap(args[0], b, n == t.Name)
	}
	return ts.mk(t.Op, t.Name, t.Sort, args...)
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return t.Int.String()
	case "f64":
		return fmt.Sprintf("%gf", t.F)
	case "str":
		return strconv.Quote(t.Name)
	case "const", "bound":
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d-1))
	}
	h := t.Op
	if t.Name != "" {
		if t.Op == "uf" || t.Op == "cons" || t.Op == "fop" || t.Op == "fcmp" {
			h = t.Name
		} else {
			h = t.Op + ":" + t.Name
		}
	}
	return h + "(" + strings.Join(as, ", ") + ")"
}
