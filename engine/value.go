package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
//
//	*Term    integers and booleans
//	*StrV    strings (by value)
//	*SliceV  slices
//	*PtrV    pointers
//	*AggV    structs and arrays (by value)
//	*IfaceV  interface values (including error)
//	*MapV    maps
//	*FuncV   functions and closures
//	*TupleV  multiple results
//	*OpaqueV values the engine does not look into
type Value interface{}

type StrV struct {
	arr *FArr
	off *Term
	len *Term
}

type SliceV struct {
	obj   *Obj // nil: statically nil
	path  string
	off   *Term // flattened element offset at path
	len   *Term
	cap   *Term
	isnil *Term
	et    types.Type
}

type PtrV struct {
	obj   *Obj // nil: statically nil
	path  string
	idx   *Term // flattened index at path
	isnil *Term
	et    types.Type // pointee type
}

type IfaceAlt struct {
	cond *Term
	typ  types.Type
	val  Value
}

// IfaceV: a union of alternatives; when none of the conditions holds it is nil.
type IfaceV struct {
	isnil *Term
	alts  []IfaceAlt
}

type MapV struct {
	obj   *Obj
	isnil *Term
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	isnil *Term
	recv  Value // bound receiver for intrinsics
}

type TupleV struct{ v []Value }

type OpaqueV struct{ what string }

type PoisonV struct{ why string }

type AggLeaf struct {
	val Value // scalar-mode leaf
	arr *FArr // dimmed leaf
	off *Term
}

type AggV struct {
	typ    types.Type
	leaves map[string]AggLeaf
}

// Obj is an allocation.
type Obj struct {
	id      int
	name    string
	typ     types.Type // root type; element type when isArr
	isArr   bool       // unbounded array of typ (slice backing); root path "[]"
	isMap   bool
	keyBits int // width of the keys of a map, if known
	group   *aliasGroup
	global  bool
	whole   *Term // length of the view an append was based on
}

type aliasGroup struct {
	id      int
	members map[*Obj]bool
}

const bigDim = int64(1) << 32

// LeafDesc describes one flattened component of a type.
type LeafDesc struct {
	path  string
	size  int64 // number of cells of this leaf per instance of the type
	dim   bool  // dimmed relative to the instance
	w     uint8
	typ   types.Type // type of the scalar
	cells bool       // stored as Go-level cells (interfaces etc. in arrays)
}

type leafKey struct {
	t   types.Type
	dim bool
}

var leafCache = map[leafKey][]LeafDesc{}

func under(t types.Type) types.Type { return t.Underlying() }

func isErrorType(t types.Type) bool {
	i, ok := under(t).(*types.Interface)
	if !ok {
		return false
	}
	return i.NumMethods() == 1 && i.Method(0).Name() == "Error"
}

func scalarWidth(t types.Type) (uint8, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// leavesOf flattens type t. dim: the instance sits inside an array.
func leavesOf(t types.Type, dim bool) []LeafDesc {
	k := leafKey{t, dim}
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := computeLeaves(t, dim, 0)
	leafCache[k] = l
	return l
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func computeLeaves(t types.Type, dim bool, depth int) []LeafDesc {
	if depth > 12 {
		return nil // recursive type: deeper levels are not represented
	}
	if w, ok := scalarWidth(t); ok {
		return []LeafDesc{{path: "", size: 1, w: w, typ: t}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var r []LeafDesc
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range computeLeaves(f.Type(), dim, depth+1) {
				l.path = "." + f.Name() + l.path
				r = append(r, l)
			}
		}
		return r
	case *types.Array:
		var r []LeafDesc
		for _, l := range computeLeaves(u.Elem(), true, depth+1) {
			l.path = "[]" + l.path
			l.size *= u.Len()
			l.dim = true
			r = append(r, l)
		}
		return r
	}
	if !dim {
		return []LeafDesc{{path: "", size: 1, typ: t, w: 255}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			return []LeafDesc{{path: "#len", size: 1, w: 64}, {path: "#c", size: bigDim, w: 8, dim: true}}
		}
	case *types.Slice:
		r := []LeafDesc{{path: "#len", size: 1, w: 64}, {path: "#nil", size: 1, w: 0}}
		for _, l := range computeLeaves(u.Elem(), true, depth+3) {
			l.path = "#e" + l.path
			l.size *= bigDim
			l.dim = true
			r = append(r, l)
		}
		return r
	case *types.Pointer:
		r := []LeafDesc{{path: "#nil", size: 1, w: 0}}
		if _, ok := under(u.Elem()).(*types.Struct); ok {
			for _, l := range computeLeaves(u.Elem(), true, depth+3) {
				l.path = "*" + l.path
				r = append(r, l)
			}
		}
		return r
	case *types.Interface:
		if isErrorType(t) {
			return []LeafDesc{{path: "#nil", size: 1, w: 0}, {path: "#kind", size: 1, w: 8}}
		}
	}
	return []LeafDesc{{path: "", size: 1, w: 255, typ: t, cells: true}}
}

// ---- persistent int-keyed map

type pnode struct {
	kids [16]interface{}
}

type pmap struct {
	root *pnode
	n    int
}

const pdepth = 6 // 24 bits of key

func (p pmap) get(k int) interface{} {
	n := p.root
	for d := pdepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		c := n.kids[(k>>(4*d))&15]
		if c == nil {
			return nil
		}
		n = c.(*pnode)
	}
	if n == nil {
		return nil
	}
	return n.kids[k&15]
}

func (p pmap) set(k int, v interface{}) pmap {
	return pmap{root: pset(p.root, pdepth-1, k, v)}
}

func pset(n *pnode, d int, k int, v interface{}) *pnode {
	m := &pnode{}
	if n != nil {
		*m = *n
	}
	i := (k >> (4 * d)) & 15
	if d == 0 {
		m.kids[i] = v
		return m
	}
	var c *pnode
	if m.kids[i] != nil {
		c = m.kids[i].(*pnode)
	}
	m.kids[i] = pset(c, d-1, k, v)
	return m
}

// diff calls f for every key whose values differ (pointer inequality).
func pdiff(a, b *pnode, d, prefix int, f func(k int, x, y interface{})) {
	if a == b {
		return
	}
	for i := 0; i < 16; i++ {
		var x, y interface{}
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		if x == y {
			continue
		}
		k := prefix | i<<(4*d)
		if d == 0 {
			f(k, x, y)
			continue
		}
		var xn, yn *pnode
		if x != nil {
			xn = x.(*pnode)
		}
		if y != nil {
			yn = y.(*pnode)
		}
		pdiff(xn, yn, d-1, k, f)
	}
}

func (p pmap) each(f func(k int, v interface{})) {
	pdiff(p.root, nil, pdepth-1, 0, func(k int, x, _ interface{}) { f(k, x) })
}

// ObjState is the (immutable once shared) contents of an object.
type ObjState struct {
	leaves   map[string]Leaf
	frozen   bool       // a by-value snapshot of it was taken; no more writes
	tainted  string     // aliasing lost track of it; no more reads
	appended bool       // an append took this object's slice as its base
	assoc    []assocEnt // string-keyed map contents
}

type assocEnt struct {
	key  *StrV
	cond *Term // present
	val  Value
}

type Leaf struct {
	val   Value
	arr   *FArr
	cells map[int64]Value
}

func (o *ObjState) clone() *ObjState {
	n := &ObjState{leaves: make(map[string]Leaf, len(o.leaves)+1), frozen: o.frozen, tainted: o.tainted, appended: o.appended}
	for k, v := range o.leaves {
		n.leaves[k] = v
	}
	n.assoc = append([]assocEnt(nil), o.assoc...)
	return n
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			s = s[i+1:]
		}
		return s
	})
}
