package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Array variables of small integers that only the initialisers of their
// package write, element by element, and nothing else takes the address of:
// their contents are computed by running those initialisers.
type table struct {
	vals []*big.Int
}

const maxTable = 1024

func (ld *Loaded) scanTables() {
	ld.tables = map[*ssa.Global]*table{}
	cands := map[*ssa.Global]*table{}
	for _, p := range ld.Prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			at, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || at.Len() > maxTable {
				continue
			}
			if _, _, isInt := intInfo(at.Elem()); !isInt {
				continue
			}
			t := &table{}
			for i := int64(0); i < at.Len(); i++ {
				t.vals = append(t.vals, new(big.Int))
			}
			cands[g] = t
		}
	}
	inits := map[*ssa.Global]map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(ld.Prog) {
		isInit := fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Name() == "init" || len(fn.Name()) > 5 && fn.Name()[:5] == "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands [10]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || cands[g] == nil {
						continue
					}
					if st, isS := in.(*ssa.Store); isS && st.Addr == g && isInit && fn.Synthetic != "" {
						// the variable's own zero initialiser comes first
						if c, isC := st.Val.(*ssa.Const); isC && c.Value == nil {
							continue
						}
					}
					ia, ok := in.(*ssa.IndexAddr)
					good := ok && ia.X == g
					if good {
						for _, r := range *ia.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp:
								good = good && r.Op == token.MUL
							case *ssa.Store:
								good = good && r.Addr == ia && isInit && fn.Pkg == g.Pkg
								if inits[g] == nil {
									inits[g] = map[*ssa.Function]bool{}
								}
								inits[g][fn] = true
							case *ssa.DebugRef:
							default:
								good = false
							}
						}
					}
					if !good {
						delete(cands, g)
					}
				}
			}
		}
	}
	for g, t := range cands {
		ok := len(inits[g]) == 1
		for fn := range inits[g] {
			ok = ok && runInit(fn, g, t)
		}
		if ok {
			ld.tables[g] = t
		}
	}
}

// runInit interprets a function of integer arithmetic that fills the table.
func runInit(fn *ssa.Function, g *ssa.Global, t *table) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	env := map[ssa.Value]*big.Int{}
	bools := map[ssa.Value]bool{}
	addr := map[ssa.Value]int{}
	val := func(v ssa.Value) *big.Int {
		if c, isC := v.(*ssa.Const); isC {
			i, exact := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !exact {
				panic("const")
			}
			return i
		}
		if r, has := env[v]; has {
			return r
		}
		panic("value")
	}
	norm := func(i *big.Int, ty types.Type) *big.Int {
		bits, signed, isInt := intInfo(ty)
		if !isInt {
			panic("type")
		}
		return wrapBig(i, bits, signed)
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for steps := 0; ; steps++ {
		if steps > 100000 {
			return false
		}
		var next *ssa.BasicBlock
		phis := map[ssa.Value]*big.Int{}
		for _, in := range b.Instrs {
			p, isP := in.(*ssa.Phi)
			if !isP {
				break
			}
			for i, pb := range b.Preds {
				if pb == prev {
					phis[p] = val(p.Edges[i])
				}
			}
		}
		for k, v := range phis {
			env[k] = v
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				x, y := val(in.X), val(in.Y)
				c := x.Cmp(y)
				switch in.Op {
				case token.ADD:
					env[in] = norm(new(big.Int).Add(x, y), in.Type())
				case token.SUB:
					env[in] = norm(new(big.Int).Sub(x, y), in.Type())
				case token.MUL:
					env[in] = norm(new(big.Int).Mul(x, y), in.Type())
				case token.LSS:
					bools[in] = c < 0
				case token.LEQ:
					bools[in] = c <= 0
				case token.GTR:
					bools[in] = c > 0
				case token.GEQ:
					bools[in] = c >= 0
				case token.EQL:
					bools[in] = c == 0
				case token.NEQ:
					bools[in] = c != 0
				default:
					return false
				}
			case *ssa.Convert:
				env[in] = norm(val(in.X), in.Type())
			case *ssa.IndexAddr:
				if in.X != g {
					return false
				}
				i := val(in.Index)
				if !i.IsInt64() || i.Int64() < 0 || i.Int64() >= int64(len(t.vals)) {
					return false
				}
				addr[in] = int(i.Int64())
			case *ssa.Store:
				if a, isG := in.Addr.(*ssa.Global); isG && a.Name() == "init$guard" {
					continue
				}
				if _, has := addr[in.Addr]; !has {
					return false
				}
				t.vals[addr[in.Addr]] = val(in.Val)
			case *ssa.UnOp:
				if _, has := addr[in.X]; in.Op != token.MUL || !has {
					return false
				}
				env[in] = t.vals[addr[in.X]]
			case *ssa.If:
				var c bool
				if k, isC := in.Cond.(*ssa.Const); isC {
					c = constant.BoolVal(k.Value)
				} else {
					var has bool
					if c, has = bools[in.Cond]; !has {
						return false
					}
				}
				next = b.Succs[1]
				if c {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				return true
			default:
				return false
			}
		}
		prev, b = b, next
	}
}

func (e *Engine) table(x ssa.Value) *table {
	if g, ok := x.(*ssa.Global); ok {
		return e.ld.tables[g]
	}
	return nil
}

// tableAt: the element, by runs of constant or consecutive values.
func (e *Engine) tableAt(t *table, idx *Term) *Term {
	ts := e.ts
	if idx.Op == "int" && idx.Int.IsInt64() && idx.Int.Int64() >= 0 && idx.Int.Int64() < int64(len(t.vals)) {
		return ts.IntB(t.vals[idx.Int.Int64()])
	}
	n := len(t.vals)
	type run struct {
		end  int
		step int64
		base *big.Int
	}
	var runs []run
	for i := 0; i < n; {
		r := run{base: t.vals[i]}
		for _, step := range []int64{0, 1} {
			j := i + 1
			for j < n && new(big.Int).Sub(t.vals[j], t.vals[i]).Cmp(big.NewInt(step*int64(j-i))) == 0 {
				j++
			}
			if j > r.end {
				r.end, r.step = j, step
			}
		}
		r.base = new(big.Int).Sub(t.vals[i], big.NewInt(r.step*int64(i)))
		runs = append(runs, r)
		i = r.end
	}
	var out *Term
	for i := len(runs) - 1; i >= 0; i-- {
		v := ts.IntB(runs[i].base)
		if runs[i].step == 1 {
			v = ts.Add(idx, v)
		}
		if out == nil {
			out = v
		} else {
			out = ts.Ite(ts.Lt(idx, ts.IntC(int64(runs[i].end))), v, out)
		}
	}
	return out
}
