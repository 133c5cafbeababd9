package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// guardSpec: the mutex of a type and the fields it guards; true where the
// elements are guarded as well.
type guardSpec struct {
	Mutex  string
	Fields map[string]bool
}

type Contract struct {
	Name     string
	Fn       *ssa.Function
	Pkg      string
	Prop     string
	Covers   []string
	Opaque   []string
	Effect   []string
	Assume   map[string]string // calls replaced by an assumed contract (a Go function)
	Nested   []string // recursive calls taken through a traced contract
	Traced   []string
	Guarded  map[string]guardSpec
	NonNil   []string // uninterpreted calls whose results are not nil
	Modular  string
	Bounded  bool // only executed, not proved
	NoRAC    bool
	MaxRec   int
	MayPanic bool
	Slow     bool
	Weight   int
	File     string
}

type Loaded struct {
	Dir       string
	Module    string
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package // by path
	Contracts []*Contract
	ByName    map[string]*ssa.Function
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	Overlay   map[string][]byte
	Errors    []string
	globals   map[string]*globalInfo
	tables    map[*ssa.Global]*table
	mu        sync.Mutex
	Dropped   map[string]bool
	Notes     []string
}

const modulePath = "www.velocidex.com/golang/vfilter"

// pkgDirs: contract directory name -> package directory below the repository.
func contractFiles(vdir string) map[string][]string {
	out := map[string][]string{}
	ents, _ := os.ReadDir(filepath.Join(vdir, "contracts"))
	for _, d := range ents {
		if !d.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(vdir, "contracts", d.Name(), "*.go"))
		sort.Strings(fs)
		out[d.Name()] = fs
	}
	return out
}

// OverlayFiles maps virtual paths inside the repository to contents.
func OverlayFiles(vdir, repo string) map[string][]byte {
	ov := map[string][]byte{}
	prel, err := os.ReadFile(filepath.Join(vdir, "contracts", "prelude.go.txt"))
	if err != nil {
		panic(err)
	}
	for d, fs := range contractFiles(vdir) {
		dir := filepath.Join(repo, strings.ReplaceAll(d, "__", "/"))
		if d == "vfilter" {
			dir = repo
		}
		pk := d
		if i := strings.LastIndex(d, "__"); i >= 0 {
			pk = d[i+2:]
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, _ := os.ReadFile(f)
			ov[filepath.Join(dir, "zz_verif_"+filepath.Base(f))] = b
		}
		ov[filepath.Join(dir, "zz_verif_prelude.go")] = []byte(strings.Replace(string(prel), "package PKG", "package "+pk, 1))
	}
	return ov
}

// Load type-checks the repository with the contract files laid over it. A
// contract file that no longer type-checks (say a function it names is gone)
// is dropped and noted; its contracts are undecided, not violated.
func Load(vdir, repo string) (*Loaded, error) {
	dropped := map[string]bool{}
	var notes []string
	for {
		ld, bad, err := load1(vdir, repo, dropped)
		if err == nil {
			ld.Dropped, ld.Notes = dropped, notes
			return ld, nil
		}
		n := 0
		for _, f := range bad {
			if !dropped[f] {
				dropped[f] = true
				n++
				notes = append(notes, "contract file "+filepath.Base(f)+" does not type-check against the current source; its contracts are undecided: "+tail(err.Error(), 600))
			}
		}
		if n == 0 {
			return nil, err
		}
	}
}

func load1(vdir, repo string, dropped map[string]bool) (*Loaded, []string, error) {
	ld := &Loaded{Dir: repo, Module: modulePath, Pkgs: map[string]*ssa.Package{}, ByName: map[string]*ssa.Function{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	ld.Overlay = OverlayFiles(vdir, repo)
	for f := range dropped {
		delete(ld.Overlay, f)
	}
	ld.Fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports,
		Dir:  repo, Env: os.Environ(), Fset: ld.Fset, Overlay: ld.Overlay,
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	var bad []string
	for _, p := range pk {
		for _, er := range p.Errors {
			ld.Errors = append(ld.Errors, er.Error())
			f, _, _ := strings.Cut(er.Pos, ":")
			if strings.HasPrefix(filepath.Base(f), "zz_verif_") && filepath.Base(f) != "zz_verif_prelude.go" {
				bad = append(bad, f)
			}
		}
	}
	if len(ld.Errors) > 0 {
		return nil, bad, fmt.Errorf("type errors: %s", strings.Join(ld.Errors, "\n"))
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	ld.Prog = prog
	for i, p := range sp {
		if p == nil {
			continue
		}
		ld.Pkgs[p.Pkg.Path()] = p
		ld.collect(p, pk[i])
	}
	ld.scanGlobals()
	ld.scanTables()
	ld.resolve("")
	return ld, nil, nil
}

func (ld *Loaded) collect(p *ssa.Package, pk *packages.Package) {
	for _, f := range pk.Syntax {
		fn := ld.Fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Doc == nil {
				continue
			}
			c := &Contract{Name: fd.Name.Name, Pkg: p.Pkg.Path(), File: filepath.Base(fn), MaxRec: 1}
			is := false
			for _, l := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(l.Text, "//"))
				if !strings.HasPrefix(t, "@") {
					continue
				}
				is = true
				t = t[1:]
				key, rest, _ := strings.Cut(t, ":")
				rest = strings.TrimSpace(rest)
				list := strings.Fields(rest)
				switch strings.TrimSpace(key) {
				case "contract":
					c.Prop = rest
				case "covers":
					c.Covers = append(c.Covers, list...)
				case "opaque":
					c.Opaque = append(c.Opaque, list...)
				case "effect":
					c.Effect = append(c.Effect, list...)
				case "traced":
					c.Traced = append(c.Traced, list...)
				case "nested":
					c.Nested = append(c.Nested, list...)
				case "assume":
					if c.Assume == nil {
						c.Assume = map[string]string{}
					}
					for _, x := range list {
						k, v, _ := strings.Cut(x, "=")
						c.Assume[k] = v
					}
				case "guarded":
					// scope.Scope.Mutex=vars,children[] : fields (and the
					// elements of the slice or map in them) of one mutex
					for _, x := range list {
						k, v, _ := strings.Cut(x, "=")
						i := strings.LastIndex(k, ".")
						if c.Guarded == nil {
							c.Guarded = map[string]guardSpec{}
						}
						g := guardSpec{Mutex: k[i+1:], Fields: map[string]bool{}}
						for _, f := range strings.Split(v, ",") {
							g.Fields[strings.TrimSuffix(f, "[]")] = strings.HasSuffix(f, "[]")
						}
						c.Guarded[k[:i]] = g
					}
				case "nonnil":
					c.NonNil = append(c.NonNil, list...)
				case "modular":
					c.Modular = rest
				case "bounded":
					c.Bounded = true
				case "norac":
					c.NoRAC = true
				case "maypanic":
					c.MayPanic = true
				case "slow":
					c.Slow = true
				case "weight":
					fmt.Sscan(rest, &c.Weight)
				case "maxrec":
					fmt.Sscan(rest, &c.MaxRec)
				default:
					panic("unknown directive @" + key + " on " + fd.Name.Name)
				}
			}
			if !is {
				continue
			}
			c.Fn = p.Func(fd.Name.Name)
			ld.Contracts = append(ld.Contracts, c)
		}
	}
}

// loopBody returns the natural loop of header h, or nil.
func (ld *Loaded) loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	fn := h.Parent()
	ld.mu.Lock()
	defer ld.mu.Unlock()
	m, ok := ld.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					body := m[s]
					if body == nil {
						body = map[*ssa.BasicBlock]bool{s: true}
						m[s] = body
					}
					work := []*ssa.BasicBlock{b}
					for len(work) > 0 {
						x := work[len(work)-1]
						work = work[:len(work)-1]
						if body[x] {
							continue
						}
						body[x] = true
						work = append(work, x.Preds...)
					}
				}
			}
		}
		ld.loops[fn] = m
	}
	return m[h]
}

func (ld *Loaded) resolve(name string) bool {
	if _, ok := ld.findFn(name); ok {
		return true
	}
	return false
}

// findFn resolves "pkg.(*T).M", "pkg.T.M", "pkg.F" with pkg the last path
// element.
func (ld *Loaded) findFn(name string) (*ssa.Function, bool) {
	if len(ld.ByName) == 0 {
		for _, p := range ld.Pkgs {
			short := p.Pkg.Name()
			for _, m := range p.Members {
				switch x := m.(type) {
				case *ssa.Function:
					ld.ByName[short+"."+x.Name()] = x
				case *ssa.Type:
					for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
						ms := ld.Prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							f := ld.Prog.MethodValue(ms.At(i))
							if f != nil {
								k := short + "." + x.Name() + "." + f.Name()
								if _, has := ld.ByName[k]; !has {
									ld.ByName[k] = f
								}
							}
						}
					}
				}
			}
		}
	}
	f, ok := ld.ByName[name]
	return f, ok
}
