package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vrtPath = modPath + "/verifrt"

// intrinsic intercepts calls with a built-in model.
func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []Value, in *ssa.Call) (*State, Value, bool) {
	name := fn.RelString(nil)
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	if strings.HasPrefix(name, vrtPath+".") {
		ns, v := x.vrt(st, name[len(vrtPath)+1:], args, fn, pos)
		return ns, v, true
	}
	if f, ok := models[name]; ok {
		x.assumed["model of "+name] = true
		return st, f(x, st, args, pos), true
	}
	if x.inits {
		if fn.Name() == "init" && fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			return st, nil, true
		}
		if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			return st, opaqueResult(fn, name), true
		}
	}
	return nil, nil, false
}

func opaqueResult(fn *ssa.Function, name string) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	if r.Len() == 1 {
		return &OpaqueV{name}
	}
	tv := &TupleV{}
	for i := 0; i < r.Len(); i++ {
		tv.v = append(tv.v, &OpaqueV{name})
	}
	return tv
}

func concreteName(v Value) string {
	s, ok := v.(*StrV)
	if !ok {
		return "?"
	}
	c, ok := s.concrete()
	if !ok {
		return "?"
	}
	return c
}

func (x *Exec) addInput(in *Input) {
	for _, o := range x.inputs {
		if o.Name == in.Name && o.t == in.t && o.arr == in.arr {
			if x.quiet == 0 && in.Name != "" && x.drawn[in.Name] {
				unsup("input %s drawn twice", in.Name)
			}
			x.drawn[in.Name] = true
			return
		}
	}
	if x.quiet == 0 {
		x.drawn[in.Name] = true
	}
	x.inputs = append(x.inputs, in)
}

func (x *Exec) vrt(st *State, name string, args []Value, fn *ssa.Function, pos token.Pos) (*State, Value) {
	scalar := func(w uint8) (*State, Value) {
		in := concreteName(args[0])
		n := "in" + x.instTag + ":" + in
		t := mkVar(n, w)
		x.addInput(&Input{Name: in, Kind: "scalar", t: t})
		return st, t
	}
	if ns, v, ok := x.fsVrt(st, name, args, fn, pos); ok {
		return ns, v
	}
	switch name {
	case "Byte", "ByteGen":
		return scalar(8)
	case "U16", "U16Gen":
		return scalar(16)
	case "U32":
		return scalar(32)
	case "U64":
		return scalar(64)
	case "Bool":
		return scalar(0)
	case "Int", "IntGen":
		in := concreteName(args[0])
		n := "in" + x.instTag + ":" + in
		lo, hi := asTerm(args[1]), asTerm(args[2])
		t := mkVar(n, 64)
		x.addInput(&Input{Name: in, Kind: "scalar", t: t})
		if lo.isConst() && hi.isConst() {
			t.setS(int64(lo.v), int64(hi.v))
		} else {
			st.assume(mkAnd(mkSle(lo, t), mkSle(t, hi)))
		}
		return st, t
	case "Choose":
		in, n := concreteName(args[0]), asTerm(args[1])
		if !n.isConst() || int64(n.v) <= 0 {
			unsup("Choose needs a constant number of cases")
		}
		if x.quiet > 0 || len(x.taken) != x.nChoose {
			unsup("Choose inside a loop")
		}
		c := 0
		if len(x.taken) < len(x.fixed) {
			c = x.fixed[len(x.taken)]
		}
		x.taken = append(x.taken, c)
		x.arity = append(x.arity, int(n.v))
		x.nChoose++
		x.addInput(&Input{Name: in, Kind: "scalar", t: k64(int64(c))})
		return st, k64(int64(c))
	case "Bytes", "BytesGen":
		in := concreteName(args[0])
		n := "in" + x.instTag + ":" + in
		ln := asTerm(args[1])
		arr := mkFVar(n, 8)
		x.addInput(&Input{Name: in, Kind: "bytes", arr: arr, n: ln})
		s := x.newSlice(st, n, types.Typ[types.Byte], ln, ln)
		st.mem = st.mem.set(s.obj.id, &ObjState{leaves: map[string]Leaf{"[]": {arr: arr}}})
		return st, s
	case "Str", "StrGen":
		in := concreteName(args[0])
		n := "in" + x.instTag + ":" + in
		ln := asTerm(args[1])
		arr := mkFVar(n, 8)
		x.addInput(&Input{Name: in, Kind: "string", arr: arr, n: ln})
		return st, &StrV{arr: arr, off: k64(0), len: ln}
	case "Fill", "FillGen":
		in := concreteName(args[0])
		n := "in" + x.instTag + ":" + in
		iv := asIface(args[1])
		p := asPtr(iv.alts[0].val)
		x.fill(st, n, p)
		return st, nil
	case "FillSlice":
		in := concreteName(args[0])
		p := asPtr(asIface(args[1]).alts[0].val)
		sl := x.newSlice(st, "in"+x.instTag+":"+in, under(p.et).(*types.Slice).Elem(), asTerm(args[2]), asTerm(args[2]))
		ls := map[string]Leaf{}
		for _, l := range leavesOf(sl.et, true) {
			if l.cells {
				unsup("FillSlice of %s", typeStr(p.et))
			}
			f := mkFVar("in"+x.instTag+":"+in+l.path, l.w)
			if strings.HasSuffix(l.path, "#len") {
				f.hasIv, f.ulo, f.uhi, f.slo, f.shi = true, 0, uint64(1)<<20, 0, 1<<20
			}
			if strings.HasSuffix(l.path, "#c") {
				x.opaqueArr[f] = true
			}
			ls["[]"+l.path] = Leaf{arr: f}
		}
		st.mem = st.mem.set(sl.obj.id, &ObjState{leaves: ls})
		st.storeAt(x, p.obj, p.path, p.idx, p.et, sl)
		return st, nil
	case "Assume":
		c := asTerm(args[0])
		if st.decide(c).isFalse() {
			return nil, nil
		}
		x.assumeIn(st, c)
		return st, nil
	case "Assert":
		x.oblige(st, "assert", concreteName(args[0]), asTerm(args[1]), pos)
		return st, nil
	case "Lemma":
		c := asTerm(args[1])
		x.oblige(st, "lemma", concreteName(args[0]), c, pos)
		x.assumeIn(st, c)
		return st, nil
	case "AssertEq":
		a, b := asIface(args[1]), asIface(args[2])
		x.assertEq(st, concreteName(args[0]), a.alts[0].val, b.alts[0].val, a.alts[0].typ, pos)
		return st, nil
	case "Invariant":
		if x.given != nil {
			*x.given = append(*x.given, invT{t: asTerm(args[0])})
		}
		return st, nil
	case "Any":
		return st, mkFresh("any", 64)
	case "InvariantAll":
		if x.given != nil {
			*x.given = append(*x.given, invT{t: asTerm(args[1]), v: asTerm(args[0])})
		}
		return st, nil
	case "Use":
		st.useAll(asTerm(args[0]))
		return st, nil
	case "Opaque":
		x.opaqueF[concreteName(args[0])] = true
		return st, nil
	case "OpaqueMax":
		x.opaqueF[concreteName(args[0])] = true
		x.opaqueMax[concreteName(args[0])] = int64(asTerm(args[1]).v)
		return st, nil
	case "Cut":
		x.cutFn[concreteName(args[0])] = true
		return st, nil
	case "Same":
		return st, x.same(st, asSlice(args[0]), asSlice(args[1]))
	case "Name":
		in := concreteName(args[0])
		n := mkVar("in"+x.instTag+":"+in+"#len", 64)
		n.setS(0, 4096)
		arr := mkFVar("in"+x.instTag+":"+in, 8)
		x.addInput(&Input{Name: in, Kind: "string", arr: arr, n: n})
		x.opaqueArr[arr] = true
		return st, &StrV{arr: arr, off: k64(0), len: n}
	case "AssertForall":
		lo, hi := asTerm(args[1]), asTerm(args[2])
		i := mkFresh("sk", 64)
		if lo.isConst() && hi.isConst() {
			if int64(lo.v) >= int64(hi.v) {
				return st, nil
			}
			i.setS(int64(lo.v), int64(hi.v)-1)
		} else {
			i.setS(lo.slo, hi.shi)
		}
		s2 := st.clone()
		x.assumeIn(s2, mkAnd(mkSle(lo, i), mkSlt(i, hi)))
		s2.useAll(i)
		f := args[3].(*FuncV)
		r, v := x.mergeRets(x.callStatic(s2, f.fn, []Value{i}, f.binds, nil))
		if r != nil {
			x.oblige(r, "assert", concreteName(args[0]), asTerm(v), pos)
		}
		return st, nil
	case "Cover":
		if x.quiet == 0 {
			x.covers = append(x.covers, &Cover{label: concreteName(args[0]), pc: st.pc})
		}
		return st, nil
	case "Concrete":
		return st, tFalse
	case "NumFx":
		n := k64(0)
		if st.fx != nil {
			for _, e := range st.fx.ev {
				n = mkAdd(n, mkIte(e.cond, k64(1), k64(0)))
			}
		}
		return st, n
	}
	// ordinary Go code of the runtime package
	return x.callFn(fn, args, nil, st)
}

// fill makes everything reachable by value at p symbolic.
func (x *Exec) fill(st *State, n string, p *PtrV) {
	s := st.writable(x, p.obj)
	if isDimmed(p.obj, p.path) {
		unsup("Fill of array element")
	}
	for _, l := range leavesOf(p.et, false) {
		nm := n + l.path
		if l.dim {
			arr := mkFVar(nm, l.w)
			s.leaves[p.path+l.path] = Leaf{arr: arr}
			x.addInput(&Input{Name: nm[len(x.instTag)+3:], Kind: "array", arr: arr, n: k64(l.size)})
		} else {
			if l.w == 255 {
				unsup("Fill of %s", typeStr(l.typ))
			}
			t := mkVar(nm, l.w)
			s.leaves[p.path+l.path] = Leaf{val: t}
			x.addInput(&Input{Name: nm[len(x.instTag)+3:], Kind: "scalar", t: t})
		}
	}
}

// assertEq: structural equality of two values, slices compared by contents.
func (x *Exec) assertEq(st *State, label string, a, b Value, t types.Type, pos token.Pos) {
	if p, ok := a.(*PoisonV); ok {
		unsup("assert on undefined value: %s", p.why)
	}
	switch u := a.(type) {
	case *SliceV:
		v := asSlice(b)
		x.oblige(st, "assert", label+" (length)", mkEq(u.len, v.len), pos)
		if u.obj == nil || v.obj == nil {
			return
		}
		us, vs := st.readable(u.obj), st.readable(v.obj)
		for _, l := range leavesOf(u.et, true) {
			if l.cells {
				unsup("assertEq on slices of %s", typeStr(u.et))
			}
			sz := uint64(l.size)
			if l.size >= bigDim {
				x.assertEqStrLeaf(st, label, u, v, us, vs, l, pos)
				continue
			}
			x.arrEq(st, label, st.leafArr(us, u.path+l.path, l.w), mkMulC(u.off, sz), st.leafArr(vs, v.path+l.path, l.w), mkMulC(v.off, sz), mkMulC(minT(u.len, v.len), sz), pos)
		}
		return
	case *StrV:
		v := asStr(b)
		x.oblige(st, "assert", label+" (length)", mkEq(u.len, v.len), pos)
		x.arrEq(st, label, u.arr, u.off, v.arr, v.off, minT(u.len, v.len), pos)
		return
	case *AggV:
		v := b.(*AggV)
		for _, l := range leavesOf(t, false) {
			p, q := u.leaves[l.path], v.leaves[l.path]
			if l.dim {
				x.arrEq(st, label+" "+l.path, p.arr, p.off, q.arr, q.off, k64(l.size), pos)
			} else {
				x.assertEq(st, label+" "+l.path, p.val, q.val, l.typ, pos)
			}
		}
		return
	case *IfaceV:
		v := asIface(b)
		// errors: equality of nil-ness
		x.oblige(st, "assert", label+" (nil)", mkIff(u.isnil, v.isnil), pos)
		return
	case *PtrV:
		v := asPtr(b)
		x.oblige(st, "assert", label+" (nil)", mkIff(u.isnil, v.isnil), pos)
		if u.obj != nil && v.obj != nil && !u.isnil.isTrue() {
			s2 := st.clone()
			x.assumeIn(s2, mkNot(u.isnil))
			x.assertEq(s2, label, s2.loadAt(x, u.obj, u.path, u.idx, u.et), s2.loadAt(x, v.obj, v.path, v.idx, v.et), u.et, pos)
		}
		return
	}
	x.oblige(st, "assert", label, x.equal(st, a, b, t, pos), pos)
}

// same is whether two byte slices have equal contents: true where the
// simplifier sees it for every element, and otherwise either (a fresh unknown,
// the same for the same contents). Both outcomes being explored, contracts
// proved with it hold whatever the answer is.
func (x *Exec) same(st *State, a, b *SliceV) *Term {
	le := mkEq(a.len, b.len)
	if le.isFalse() || a.obj == nil || b.obj == nil {
		return mkAnd(le, mkEq(a.len, k64(0)))
	}
	fa, fb := st.leafArr(st.readable(a.obj), a.path, 8), st.leafArr(st.readable(b.obj), b.path, 8)
	if le.isTrue() && fa == fb && a.off == b.off {
		return tTrue
	}
	if le.isTrue() && a.len.isConst() && a.len.v%256 == 0 {
		lo := mkFresh("sk", 64)
		lo.setS(0, 255)
		all := true
		for c := int64(0); c < int64(a.len.v) && all; c += 256 {
			i := mkAddC(lo, c)
			all = mkEq(sel(fa, mkAdd(a.off, i)), sel(fb, mkAdd(b.off, i))).isTrue()
		}
		if all {
			return tTrue
		}
	}
	if le.isTrue() {
		i := mkFresh("sk", 64)
		i.setS(0, maxS(0, a.len.shi-1))
		s2 := st.clone()
		x.assumeIn(s2, mkSlt(i, a.len))
		if s2.decide(mkEq(sel(fa, mkAdd(a.off, i)), sel(fb, mkAdd(b.off, i)))).isTrue() {
			return tTrue
		}
	}
	v := mkVar(fmt.Sprintf("same:%d.%d.%d.%d.%d", fa.id, a.off.id, fb.id, b.off.id, a.len.id), 0)
	return mkAnd(le, v)
}

func minT(a, b *Term) *Term {
	if a == b {
		return a
	}
	return mkIte(mkSle(a, b), a, b)
}

// assertEqStrLeaf compares bigDim-strided contents (strings inside elements):
// for every element i and every position j below its length.
func (x *Exec) assertEqStrLeaf(st *State, label string, u, v *SliceV, us, vs *ObjState, l LeafDesc, pos token.Pos) {
	if l.size != bigDim || !strings.HasSuffix(l.path, "#c") && !strings.HasSuffix(l.path, "#e") {
		unsup("assertEq on nested slices %s", l.path)
	}
	fa := st.leafArr(us, u.path+l.path, l.w)
	fb := st.leafArr(vs, v.path+l.path, l.w)
	if fa == fb && u.off == v.off {
		x.nTriv++
		return
	}
	lp := l.path[:len(l.path)-2] + "#len"
	i := mkFresh("sk", 64)
	i.setS(0, maxS(0, u.len.shi-1))
	j := mkFresh("sk", 64)
	j.setS(0, bigDim-1)
	s2 := st.clone()
	n := sel(st.leafArr(us, u.path+lp, 64), mkAdd(u.off, i))
	x.assumeIn(s2, mkAnd(mkSlt(i, u.len), mkSlt(j, n)))
	e1 := sel(fa, mkAdd(mkMulC(mkAdd(u.off, i), uint64(bigDim)), j))
	e2 := sel(fb, mkAdd(mkMulC(mkAdd(v.off, i), uint64(bigDim)), j))
	x.oblige(s2, "assert", label+" "+l.path, mkEq(e1, e2), pos)
}

func (x *Exec) arrEq(st *State, label string, fa *FArr, ao *Term, fb *FArr, bo *Term, n *Term, pos token.Pos) {
	if fa == fb && ao == bo {
		x.nTriv++
		return
	}
	eq := func(p, q *Term) *Term {
		if p.w == 0 {
			return mkIff(p, q)
		}
		return mkEq(p, q)
	}
	if n.isConst() && n.v >= 16 {
		// one generic element first: often the simplifier sees it
		sk := mkFresh("sk", 64)
		sk.setS(0, int64(n.v)-1)
		if eq(sel(fa, mkAdd(ao, sk)), sel(fb, mkAdd(bo, sk))).isTrue() {
			x.nTriv++
			return
		}
	}
	if st.knowsAll() {
		// one generic element, with what is known of all
		sk := mkFresh("sk", 64)
		s2 := st.clone()
		x.assumeIn(s2, mkAnd(mkSle(k64(0), sk), mkSlt(sk, n)))
		s2.useAll(sk)
		x.oblige(s2, "assert", label, eq(sel(fa, mkAdd(ao, sk)), sel(fb, mkAdd(bo, sk))), pos)
		return
	}
	if n.isConst() && n.v <= 1024 {
		for i := int64(0); i < int64(n.v); i++ {
			e := eq(sel(fa, mkAddC(ao, i)), sel(fb, mkAddC(bo, i)))
			if e.isTrue() {
				x.nTriv++
				continue
			}
			x.oblige(st, "assert", fmt.Sprintf("%s [%d]", label, i), e, pos)
		}
		return
	}
	if n.isConst() && n.v%256 == 0 && n.v/256 <= 4096 {
		lo := mkFresh("sk", 64)
		lo.setS(0, 255)
		for c := int64(0); c < int64(n.v); c += 256 {
			i := mkAddC(lo, c)
			e := eq(sel(fa, mkAdd(ao, i)), sel(fb, mkAdd(bo, i)))
			if e.isTrue() {
				x.nTriv++
				continue
			}
			x.oblige(st, "assert", fmt.Sprintf("%s [%d..%d]", label, c, c+255), e, pos)
		}
		return
	}
	i := mkFresh("sk", 64)
	i.setS(0, maxS(0, n.shi-1))
	s2 := st.clone()
	x.assumeIn(s2, mkSlt(i, n))
	x.oblige(s2, "assert", label+" (contents)", eq(sel(fa, mkAdd(ao, i)), sel(fb, mkAdd(bo, i))), pos)
}

// ---- strings

const strEqMax = 64

func (x *Exec) strEq(st *State, a, b *StrV) *Term {
	if a.arr == b.arr && a.off == b.off && a.len == b.len {
		return tTrue
	}
	le := mkEq(a.len, b.len)
	if le.isFalse() {
		return tFalse
	}
	hi := minS(a.len.shi, b.len.shi)
	if a.len.isConst() && b.len.isConst() || hi <= strEqMax {
		cs := []*Term{le}
		n := a.len // the two lengths are equal under le
		if b.len.isConst() {
			n = b.len
		}
		for i := int64(0); i < hi; i++ {
			e := mkEq(sel(a.arr, mkAddC(a.off, i)), sel(b.arr, mkAddC(b.off, i)))
			if e.isTrue() {
				continue
			}
			cs = append(cs, mkOr(mkSle(n, k64(i)), e))
			if e.isFalse() && n.slo > i {
				return tFalse
			}
		}
		return mkAnd(cs...)
	}
	// unbounded: an uninterpreted verdict, the same for the same pair
	k1 := fmt.Sprintf("%d.%d.%d", a.arr.id, a.off.id, a.len.id)
	k2 := fmt.Sprintf("%d.%d.%d", b.arr.id, b.off.id, b.len.id)
	if k2 < k1 {
		k1, k2 = k2, k1
	}
	v := mkVar("streq:"+k1+":"+k2, 0)
	return mkAnd(le, v)
}

func (x *Exec) strBin(st *State, op token.Token, a, b *StrV) Value {
	if op == token.ADD {
		return strCat(a, b)
	}
	ca, ok1 := a.concrete()
	cb, ok2 := b.concrete()
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return mkBool(ca < cb)
		case token.LEQ:
			return mkBool(ca <= cb)
		case token.GTR:
			return mkBool(ca > cb)
		case token.GEQ:
			return mkBool(ca >= cb)
		}
	}
	if a.len.isConst() && b.len.isConst() && a.len.v <= 16 && b.len.v <= 16 {
		lt := func(p, q *StrV) *Term { // p < q
			n := minU(p.len.v, q.len.v)
			r := mkBool(p.len.v < q.len.v)
			for i := int64(n) - 1; i >= 0; i-- {
				c, d := sel(p.arr, mkAddC(p.off, i)), sel(q.arr, mkAddC(q.off, i))
				r = mkOr(mkUlt(c, d), mkAnd(mkEq(c, d), r))
			}
			return r
		}
		switch op {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return mkNot(lt(b, a))
		case token.GEQ:
			return mkNot(lt(a, b))
		}
	}
	unsup("string %v", op)
	return nil
}

func strCat(a, b *StrV) *StrV {
	if a.len.isConst() && a.len.v == 0 {
		return b
	}
	if b.len.isConst() && b.len.v == 0 {
		return a
	}
	ca, ok1 := a.concrete()
	cb, ok2 := b.concrete()
	if ok1 && ok2 {
		return strConst(ca + cb)
	}
	base := shiftArr(a.arr, a.off, 8, a.len)
	return &StrV{arr: mkFCopy(base, a.len, b.len, b.arr, b.off), off: k64(0), len: mkAdd(a.len, b.len)}
}

func (x *Exec) opaqueStr(key string) *StrV {
	if v, ok := x.memo["str:"+key]; ok {
		return v.(*StrV)
	}
	n := mkFresh("strlen", 64)
	n.setS(0, 1<<30)
	r := &StrV{arr: mkFFresh("str", 8), off: k64(0), len: n}
	x.memo["str:"+key] = r
	return r
}

func errOpaque() *IfaceV {
	return &IfaceV{isnil: tFalse, alts: []IfaceAlt{{cond: tTrue, typ: nil, val: &OpaqueV{"error"}}}}
}

// ---- models of library functions

type modelFn func(x *Exec, st *State, args []Value, pos token.Pos) Value

var models map[string]modelFn

func init() {
	le := "(encoding/binary.littleEndian)."
	models = map[string]modelFn{
		"fmt.Errorf": func(x *Exec, st *State, a []Value, pos token.Pos) Value { return errOpaque() },
		"errors.New": func(x *Exec, st *State, a []Value, pos token.Pos) Value { return errOpaque() },
		"fmt.Sprintf": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			return x.sprintf(st, a)
		},
		"fmt.Fprintf": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{v: []Value{mkFresh("n", 64), errMaybe()}}
		},
		"fmt.Printf": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{v: []Value{mkFresh("n", 64), errMaybe()}}
		},
		"fmt.Println": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{v: []Value{mkFresh("n", 64), errMaybe()}}
		},
		le + "Uint16":     func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.leGet(st, a[1], 2, pos) },
		le + "Uint32":     func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.leGet(st, a[1], 4, pos) },
		le + "Uint64":     func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.leGet(st, a[1], 8, pos) },
		le + "PutUint16":  func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.lePut(st, a[1], a[2], 2, pos) },
		le + "PutUint32":  func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.lePut(st, a[1], a[2], 4, pos) },
		le + "PutUint64":  func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.lePut(st, a[1], a[2], 8, pos) },
		"strings.ToUpper": func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.mapCase(st, asStr(a[0]), true, pos) },
		"strings.ToLower": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			return x.mapCase(st, asStr(a[0]), false, pos)
		},
		"strings.EqualFold": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			p, q := asStr(a[0]), asStr(a[1])
			if e := x.foldElem(p, q); e != nil {
				return e
			}
			return x.strEq(st, x.mapCase(st, p, false, pos), x.mapCase(st, q, false, pos))
		},
		"strings.TrimRight": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			return x.trimRight(st, asStr(a[0]), asStr(a[1]), pos)
		},
		"strings.Contains": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			s, ok1 := asStr(a[0]).concrete()
			p, ok2 := asStr(a[1]).concrete()
			if !ok1 || !ok2 {
				unsup("strings.Contains on symbolic strings")
			}
			return mkBool(strings.Contains(s, p))
		},
		"strings.HasPrefix": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			s, p := asStr(a[0]), asStr(a[1])
			return mkAnd(mkSle(p.len, s.len), x.strEq(st, &StrV{arr: s.arr, off: s.off, len: p.len}, p))
		},
		"strings.HasSuffix": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			s, p := asStr(a[0]), asStr(a[1])
			return mkAnd(mkSle(p.len, s.len), x.strEq(st, &StrV{arr: s.arr, off: mkAdd(s.off, mkSub(s.len, p.len)), len: p.len}, p))
		},
	}
}

func errMaybe() Value {
	n := mkFresh("errnil", 0)
	return &IfaceV{isnil: n, alts: []IfaceAlt{{cond: mkNot(n), typ: nil, val: &OpaqueV{"error"}}}}
}

func (x *Exec) leGet(st *State, v Value, n int64, pos token.Pos) Value {
	s := asSlice(v)
	x.oblige(st, "bounds", "slice holds the integer", mkSle(k64(n), s.len), pos)
	if s.obj == nil {
		unsup("nil slice")
	}
	os := st.readable(s.obj)
	arr := st.leafArr(os, s.path, 8)
	w := uint8(8 * n)
	r := mkZExt(sel(arr, s.off), w)
	for i := int64(1); i < n; i++ {
		r = mkAdd(r, mkMulC(mkZExt(sel(arr, mkAddC(s.off, i)), w), uint64(1)<<(8*i)))
	}
	return r
}

func (x *Exec) lePut(st *State, v, val Value, n int64, pos token.Pos) Value {
	s := asSlice(v)
	x.oblige(st, "bounds", "slice holds the integer", mkSle(k64(n), s.len), pos)
	if s.obj == nil {
		unsup("nil slice")
	}
	t := asTerm(val)
	for i := int64(0); i < n; i++ {
		st.storeAt(x, s.obj, s.path, mkAddC(s.off, i), types.Typ[types.Byte], mkExtract(t, uint64(8*i), 8))
	}
	return nil
}

// foldElem is whether a text equals an element of an arbitrary table of texts,
// but for case: an unknown function of both.
func (x *Exec) foldElem(p, q *StrV) *Term {
	if p.off.isConst() {
		p, q = q, p
	}
	if p.off.isConst() || !q.off.isConst() || !x.opaqueArr[p.arr] {
		return nil
	}
	x.assumed["model of strings.EqualFold on elements of a table: an unknown function of both texts"] = true
	ufRange["fold:"+strKey(q)] = [2]int64{0, 1}
	return mkEq(mkUFA("fold:"+strKey(q), 8, p.arr, p.off, p.len), mkConst(1, 8))
}

// mapCase models strings.ToUpper/ToLower for ASCII strings (obligation).
func (x *Exec) mapCase(st *State, s *StrV, up bool, pos token.Pos) *StrV {
	if c, ok := s.concrete(); ok {
		if up {
			return strConst(strings.ToUpper(c))
		}
		return strConst(strings.ToLower(c))
	}
	if x.opaqueArr[s.arr] {
		if up {
			return x.opaqueFn("upper", s)
		}
		return x.opaqueFn("lower", s)
	}
	x.asciiOnly(st, s, pos)
	conv := func(c *Term) *Term {
		lo, hi := byte('a'), byte('z')
		d := int64(-32)
		if !up {
			lo, hi, d = 'A', 'Z', 32
		}
		in := mkAnd(mkUle(mkConst(uint64(lo), 8), c), mkUle(c, mkConst(uint64(hi), 8)))
		return mkIte(in, mkAddC(c, d), c)
	}
	if s.len.shi <= 64 {
		arr := s.arr
		base := mkFConst(zeroTerm(8))
		for i := int64(0); i < s.len.shi; i++ {
			base = mkFStore(base, k64(i), conv(sel(arr, mkAddC(s.off, i))))
		}
		return &StrV{arr: base, off: k64(0), len: s.len}
	}
	arr := mkFLambda(8, func(i *Term) *Term { return conv(sel(s.arr, mkAdd(s.off, i))) })
	return &StrV{arr: arr, off: k64(0), len: s.len}
}

func (x *Exec) asciiOnly(st *State, s *StrV, pos token.Pos) {
	n := s.len.shi
	if n <= 64 {
		for i := int64(0); i < n; i++ {
			c := sel(s.arr, mkAddC(s.off, i))
			x.oblige(st, "model", "argument is ASCII", mkOr(mkSle(s.len, k64(i)), mkUlt(c, mkConst(0x80, 8))), pos)
		}
		return
	}
	i := mkFresh("sk", 64)
	i.setS(0, maxS(0, n-1))
	s2 := st.clone()
	s2.assume(mkSlt(i, s.len))
	x.oblige(s2, "model", "argument is ASCII", mkUlt(sel(s.arr, mkAdd(s.off, i)), mkConst(0x80, 8)), pos)
}

// trimRight for single-byte ASCII cutsets and strings of bounded length.
func (x *Exec) trimRight(st *State, s, cut *StrV, pos token.Pos) Value {
	c, ok := cut.concrete()
	if !ok || len(c) != 1 || c[0] >= 0x80 {
		unsup("TrimRight with this cutset")
	}
	if cs, ok := s.concrete(); ok {
		return strConst(strings.TrimRight(cs, c))
	}
	if s.len.shi > 64 {
		unsup("TrimRight of long string")
	}
	// new length: the largest k with k==0 or s[k-1] != c
	n := k64(0)
	for i := int64(0); i < s.len.shi; i++ {
		b := sel(s.arr, mkAddC(s.off, i))
		keep := mkAnd(mkSlt(k64(i), s.len), mkNot(mkEq(b, mkConst(uint64(c[0]), 8))))
		n = mkIte(keep, k64(i+1), n)
	}
	return &StrV{arr: s.arr, off: s.off, len: n}
}

// sprintf supports %s, %d (constants), %0NX / %0Nx / %X of bounded values;
// anything else yields an uninterpreted string determined by format and
// arguments.
func (x *Exec) sprintf(st *State, args []Value) Value {
	f, ok := asStr(args[0]).concrete()
	if !ok {
		unsup("Sprintf with symbolic format")
	}
	sl := asSlice(args[1])
	var av []IfaceAlt
	if sl.obj != nil {
		if !sl.len.isConst() || !sl.off.isConst() {
			unsup("Sprintf with symbolic arguments list")
		}
		for i := int64(0); i < int64(sl.len.v); i++ {
			v := st.loadAt(x, sl.obj, sl.path, mkAddC(sl.off, i), sl.et)
			iv := asIface(v)
			if len(iv.alts) != 1 {
				return x.opaqueStr(fmt.Sprintf("sprintf%d", tc.next))
			}
			av = append(av, iv.alts[0])
		}
	}
	res := strConst("")
	ai := 0
	lit := ""
	flush := func() {
		if lit != "" {
			res = strCat(res, strConst(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if f[i] == '%' {
			lit += "%"
			continue
		}
		spec := ""
		for i < len(f) && strings.IndexByte("0123456789-+# .", f[i]) >= 0 {
			spec += string(f[i])
			i++
		}
		verb := f[i]
		if ai >= len(av) {
			unsup("Sprintf: missing argument")
		}
		a := av[ai]
		ai++
		flush()
		var piece *StrV
		if a.typ != nil {
			if fn := x.stringMethod(a.typ); fn != nil && (verb == 's' || verb == 'v' || verb == 'q') {
				// rendered through String/Error
				res = strCat(res, x.opaqueStr(fmt.Sprintf("%%%s%c|m%s|%s", spec, verb, typeStr(a.typ), valKey(a.val))))
				continue
			}
		}
		switch v := a.val.(type) {
		case *StrV:
			if (verb == 's' || verb == 'v') && spec == "" {
				piece = v
			}
			if c, ok := v.concrete(); ok {
				piece = strConst(fmt.Sprintf("%"+spec+string(verb), c))
			}
		case *Term:
			if v.isConst() && v.w > 0 {
				if isSigned(a.typ) {
					piece = strConst(fmt.Sprintf("%"+spec+string(verb), sext64(v.v, v.w)))
				} else {
					piece = strConst(fmt.Sprintf("%"+spec+string(verb), v.v))
				}
			} else if (verb == 'd' || verb == 'v' && spec == "") && v.w > 0 && isSigned(a.typ) {
				e := v
				if e.w < 64 {
					e = mkSExt(e, 64)
				}
				piece = decimal(e, spec)
			} else if (verb == 'X' || verb == 'x') && len(spec) == 2 && spec[0] == '0' {
				d, _ := strconv.Atoi(spec)
				if v.w > 0 && d > 0 && d < 16 && v.uhi < uint64(1)<<(4*uint(d)) {
					arr := mkFConst(zeroTerm(8))
					for k := 0; k < d; k++ {
						sh := uint(4 * (d - 1 - k))
						nib := mkBAnd(mkLshrC(mkZExt64(v), sh), k64(15))
						al := int64('A' - 10)
						if verb == 'x' {
							al = 'a' - 10
						}
						ch := mkIte(mkUlt(nib, k64(10)), mkAddC(nib, '0'), mkAddC(nib, al))
						arr = mkFStore(arr, k64(int64(k)), mkExtract(ch, 0, 8))
					}
					piece = &StrV{arr: arr, off: k64(0), len: k64(int64(d))}
				}
			}
		}
		if piece == nil {
			// an unknown text, the same for the same value
			ty := "nil"
			if a.typ != nil {
				ty = typeStr(a.typ)
			}
			piece = x.opaqueStr(fmt.Sprintf("%%%s%c|%s|%s", spec, verb, ty, valKey(a.val)))
		}
		res = strCat(res, piece)
	}
	flush()
	return res
}

func mkZExt64(t *Term) *Term {
	if t.w == 64 {
		return t
	}
	return mkZExt(t, 64)
}

func (x *Exec) stringMethod(t types.Type) *ssa.Function {
	for _, n := range []string{"Error", "String"} {
		ms := x.prog.MethodSets.MethodSet(t)
		if s := ms.Lookup(nil, n); s != nil {
			return x.prog.MethodValue(s)
		}
	}
	return nil
}

func valKey(v Value) string {
	switch a := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", a.id)
	case *StrV:
		return fmt.Sprintf("s%d.%d.%d", a.arr.id, a.off.id, a.len.id)
	case *OpaqueV:
		return "o" + a.what
	}
	return fmt.Sprintf("?%d", tc.next)
}
