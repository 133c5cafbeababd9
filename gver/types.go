package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type Leaf struct {
	Path string
	Sort Sort
	Type types.Type // static Go type of the leaf (for typing facts)
}

type Ctor struct {
	Name   string
	Type   types.Type
	Fields []Sort
}

type TypeReg struct {
	module  string // repo module path: structs of other modules are opaque
	ctors   map[string]*Ctor
	order   []*Ctor
	leafMem map[string][]Leaf
	opaqueS map[string]bool
}

func NewTypeReg(module string) *TypeReg {
	tr := &TypeReg{module: module, ctors: map[string]*Ctor{}, leafMem: map[string][]Leaf{}}
	return tr
}

func typeKey(t types.Type) string {
	t = deepUnalias(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// transparent: struct types whose fields are modelled. Structs declared
// outside the module under verification are opaque values.
func (tr *TypeReg) transparent(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), tr.module) {
		return true
	}
	// plain records of public basic fields
	s, ok := n.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, basic := s.Field(i).Type().Underlying().(*types.Basic); !basic || !s.Field(i).Exported() {
			return false
		}
	}
	return true
}

func (tr *TypeReg) isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !tr.transparent(t) {
		return nil, false
	}
	return s, true
}

func (tr *TypeReg) leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := tr.leafMem[k]; ok {
		return l
	}
	var out []Leaf
	switch u := t.Underlying().(type) {
	case *types.Basic:
		out = []Leaf{{"", basicSort(u), t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		out = []Leaf{{"", SInt, t}}
	case *types.Interface:
		out = []Leaf{{"", SAny, t}}
	case *types.Slice:
		for _, p := range []string{"#ref", "#off", "#len", "#cap"} {
			out = append(out, Leaf{p, SInt, nil})
		}
	case *types.Array:
		out = []Leaf{{"#arr", SInt, nil}}
	case *types.Struct:
		if !tr.transparent(t) {
			out = []Leaf{{"", SInt, t}}
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range tr.leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort, l.Type})
			}
		}
	case *types.Tuple:
		panic("tuple leaves")
	default:
		out = []Leaf{{"", SInt, t}}
	}
	tr.leafMem[k] = out
	return out
}

func basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Kind() == types.Float32:
		return SF32
	case b.Info()&types.IsFloat != 0:
		return SF64
	}
	return SInt
}

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

func (tr *TypeReg) ctor(t types.Type) *Ctor {
	k := typeKey(t)
	if c, ok := tr.ctors[k]; ok {
		return c
	}
	short := k
	if i := strings.LastIndexByte(short, '/'); i >= 0 {
		pre := ""
		for strings.HasPrefix(short, "*") || strings.HasPrefix(short, "[]") {
			if short[0] == '*' {
				pre += "p"
				short = short[1:]
			} else {
				pre += "s"
				short = short[2:]
			}
		}
		short = pre + "_" + short[strings.LastIndexByte(short, '/')+1:]
	}
	c := &Ctor{Name: fmt.Sprintf("a%d_%s", len(tr.order), sanitize(short)), Type: t}
	if len(c.Name) > 60 {
		c.Name = c.Name[:60]
	}
	for _, l := range tr.leaves(t) {
		c.Fields = append(c.Fields, l.Sort)
	}
	tr.ctors[k] = c
	tr.order = append(tr.order, c)
	return c
}

func (tr *TypeReg) byName(n string) *Ctor {
	for _, c := range tr.order {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (tr *TypeReg) fieldSort(name string, i int) Sort {
	switch name {
	case "aother":
		return SInt
	case "snoc":
		if i == 0 {
			return SSeq
		}
		return SAny
	}
	c := tr.byName(name)
	return c.Fields[i]
}

func (tr *TypeReg) implementers(i *types.Interface) []*Ctor {
	var out []*Ctor
	for _, c := range tr.order {
		if types.Implements(c.Type, i) {
			out = append(out, c)
		}
	}
	return out
}

// datatype declarations
func (tr *TypeReg) declare() string {
	var sb strings.Builder
	sb.WriteString("(declare-datatypes ((Any 0)) (((anil) (aother (aother_0 Int) (aother_1 Int))")
	for _, c := range tr.order {
		fmt.Fprintf(&sb, " (%s", c.Name)
		for i, f := range c.Fields {
			fmt.Fprintf(&sb, " (%s_%d %s)", c.Name, i, f)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))\n")
	return sb.String()
}

// stable key order helper
func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// deepUnalias: identical types get one spelling.
func deepUnalias(t types.Type) types.Type {
	switch t := types.Unalias(t).(type) {
	case *types.Slice:
		return types.NewSlice(deepUnalias(t.Elem()))
	case *types.Array:
		return types.NewArray(deepUnalias(t.Elem()), t.Len())
	case *types.Pointer:
		return types.NewPointer(deepUnalias(t.Elem()))
	case *types.Map:
		return types.NewMap(deepUnalias(t.Key()), deepUnalias(t.Elem()))
	case *types.Chan:
		return types.NewChan(t.Dir(), deepUnalias(t.Elem()))
	default:
		return t
	}
}
