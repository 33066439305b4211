package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opaqueCall is a call of a function of which only that is used that its
// results depend on nothing but its arguments (and what they refer to), and
// that it changes nothing: what its own contracts show.
func (x *Exec) opaqueCall(st *State, fn *ssa.Function, args []Value) Value {
	var key strings.Builder
	key.WriteString(fn.RelString(nil))
	var add func(v Value)
	add = func(v Value) {
		switch v := v.(type) {
		case *Term:
			fmt.Fprintf(&key, " t%d", st.decide(v).id)
		case *StrV:
			n := st.decide(v.len)
			fmt.Fprintf(&key, " s%d,%d", n.id, shiftArr(v.arr, v.off, 8, n).id)
		case *SliceV:
			n := st.decide(v.len)
			fmt.Fprintf(&key, " [%d,%d", n.id, st.decide(v.isnil).id)
			if v.obj != nil {
				for _, l := range leavesOf(v.et, true) {
					if l.cells {
						unsup("%s as an opaque function of %s", fn, typeStr(v.et))
					}
					sz := uint64(l.size)
					fmt.Fprintf(&key, ",%d", shiftArr(st.leafArr(st.readable(v.obj), v.path+l.path, l.w), mkMulC(v.off, sz), l.w, mkMulC(n, sz)).id)
				}
			}
			key.WriteString("]")
		case *PtrV:
			if v.obj == nil {
				key.WriteString(" nil")
				return
			}
			fmt.Fprintf(&key, " *%d", st.decide(v.isnil).id)
			add(x.load(st, v, fn.Pos()))
		case *AggV:
			var ks []string
			for k := range v.leaves {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				lf := v.leaves[k]
				if lf.arr != nil {
					fmt.Fprintf(&key, " a%d", shiftArr(lf.arr, lf.off, lf.arr.w, k64(aggLeafSize(v.typ, k))).id)
					continue
				}
				add(lf.val)
			}
		default:
			unsup("%s as an opaque function of %T", fn, v)
		}
	}
	for _, a := range args {
		add(a)
	}
	k := key.String()
	n, ok := x.opaqueN[k]
	if !ok {
		n = len(x.opaqueN)
		x.opaqueN[k] = n
	}
	max, ok := x.opaqueMax[fn.RelString(nil)]
	if !ok {
		if max, ok = x.opaqueMax[strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")]; !ok {
			max = maxLen
		}
	}
	res := fn.Signature.Results()
	var vs []Value
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, x.opaqueVal(st, fmt.Sprintf("opaque:%s:%d:%d", fn.Name(), n, i), res.At(i).Type(), max))
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return &TupleV{vs}
}

// (max is how long slices in its result are at most)
func (x *Exec) opaqueVal(st *State, name string, t types.Type, max int64) Value {
	if w, ok := scalarWidth(t); ok {
		return mkVar(name, w)
	}
	if isString(t) {
		n := mkVar(name+"#len", 64)
		n.setS(0, 1<<30)
		arr := mkFVar(name, 8)
		x.opaqueArr[arr] = true
		return &StrV{arr: arr, off: k64(0), len: n}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		n := mkVar(name+"#len", 64)
		n.setS(0, max)
		s := x.newSlice(st, name, u.Elem(), n, n)
		s.isnil = mkAnd(mkVar(name+"#nil", 0), mkEq(n, k64(0)))
		ls := map[string]Leaf{}
		for _, l := range leavesOf(u.Elem(), true) {
			if l.cells {
				unsup("opaque result of type %s", typeStr(t))
			}
			f := mkFVar(name+l.path, l.w)
			if strings.HasSuffix(l.path, "#len") {
				f.hasIv, f.ulo, f.uhi, f.slo, f.shi = true, 0, uint64(maxLen), 0, maxLen
			}
			ls["[]"+l.path] = Leaf{arr: f}
		}
		st.mem = st.mem.set(s.obj.id, &ObjState{leaves: ls})
		x.assumed["slice lengths stay below 2^40 (memory bound)"] = true
		return s
	case *types.Interface:
		if isErrorType(t) {
			n := mkVar(name+"#nil", 0)
			return &IfaceV{isnil: n, alts: []IfaceAlt{{cond: mkNot(n), typ: nil, val: &OpaqueV{"error"}}}}
		}
	}
	unsup("opaque result of type %s", typeStr(t))
	return nil
}
