package main

import "fmt"

// Functional arrays: total functions from a 64-bit index to a w-bit value
// (w==0: booleans), built from array variables by store, copy, ite, lambda.

type FOp uint8

const (
	FVarA   FOp = iota
	FConst      // t[0]
	FStore      // f[0], t[0]=idx, t[1]=val
	FCopy       // f[0]=dst, f[1]=src, t[0]=dOff, t[1]=n, t[2]=sOff
	FIte        // t[0]=cond, f[0], f[1]
	FLambda     // t[0]=bound var, t[1]=body
	FLit        // lit values; outside: 0. With a stride L: entry (k<<32)+j is lit[k*L+j] for j<L
)

type FArr struct {
	op       FOp
	w        uint8
	bnd      bool
	hasIv    bool
	id       int32
	f        []*FArr
	t        []*Term
	name     string
	lit      []uint64
	stride   uint64
	ulo, uhi uint64
	slo, shi int64
	depth    int32
}

type fkey struct {
	op                 FOp
	w                  uint8
	f0, f1, t0, t1, t2 int32
	s                  string
}

type selKey struct {
	f *FArr
	i *Term
}

func internF(op FOp, w uint8, f []*FArr, t []*Term, name string, lit []uint64) *FArr {
	k := fkey{op: op, w: w, s: name}
	if len(f) > 0 {
		k.f0 = f[0].id + 1
	}
	if len(f) > 1 {
		k.f1 = f[1].id + 1
	}
	if len(t) > 0 {
		k.t0 = t[0].id
	}
	if len(t) > 1 {
		k.t1 = t[1].id
	}
	if len(t) > 2 {
		k.t2 = t[2].id
	}
	if op == FLit {
		b := make([]byte, 0, len(lit)*2)
		for _, x := range lit {
			for i := 0; i < 8; i++ {
				if uint8(i*8) < w || i == 0 {
					b = append(b, byte(x>>(8*i)))
				}
			}
		}
		k.s = name + ":" + string(b)
	}
	if r, ok := tc.farr[k]; ok {
		return r
	}
	r := &FArr{op: op, w: w, f: f, t: t, name: name, lit: lit, id: tc.nextF}
	tc.nextF++
	for _, x := range f {
		if x.bnd {
			r.bnd = true
		}
		if x.depth+1 > r.depth {
			r.depth = x.depth + 1
		}
	}
	for i, x := range t {
		if op == FLambda && i == 0 {
			continue
		}
		if x.bnd {
			r.bnd = true
		}
	}
	if op == FLambda {
		// bound iff body mentions a bound variable other than ours
		r.bnd = hasOtherBound(t[1], t[0])
	}
	tc.farr[k] = r
	return r
}

func hasOtherBound(t, own *Term) bool {
	seen := map[*Term]bool{}
	seenF := map[*FArr]bool{}
	var wt func(t *Term) bool
	var wf func(f *FArr) bool
	wt = func(t *Term) bool {
		if !t.bnd || t == own || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OVar {
			return true
		}
		for _, x := range t.a {
			if wt(x) {
				return true
			}
		}
		return t.arr != nil && wf(t.arr)
	}
	wf = func(f *FArr) bool {
		if !f.bnd || seenF[f] {
			return false
		}
		seenF[f] = true
		for _, x := range f.f {
			if wf(x) {
				return true
			}
		}
		for i, x := range f.t {
			if f.op == FLambda && i == 0 {
				continue
			}
			if wt(x) {
				return true
			}
		}
		return false
	}
	return wt(t)
}

func mkFVar(name string, w uint8) *FArr { return internF(FVarA, w, nil, nil, name, nil) }
func mkFFresh(base string, w uint8) *FArr {
	return mkFVar(freshName(base), w)
}
func mkFConst(v *Term) *FArr { return internF(FConst, v.w, nil, []*Term{v}, "", nil) }
func mkFLit(vals []uint64, w uint8) *FArr {
	return internF(FLit, w, nil, nil, "", vals)
}

// mkFTab is a table of texts: row k, below 2^32, at index k<<32.
func mkFTab(vals []uint64, stride uint64, w uint8) *FArr {
	f := internF(FLit, w, nil, nil, fmt.Sprint(stride), vals)
	f.stride = stride
	return f
}

func (f *FArr) litAt(i uint64) uint64 {
	if f.stride > 0 {
		j := i & (1<<32 - 1)
		if j >= f.stride {
			return 0
		}
		i = i>>32*f.stride + j
	}
	if i < uint64(len(f.lit)) {
		return f.lit[i]
	}
	return 0
}

// column is the array of the j-th entries of the rows.
func (f *FArr) column(j uint64) *FArr {
	if j >= f.stride {
		return mkFConst(mkConst(0, f.w))
	}
	var c []uint64
	for i := j; i < uint64(len(f.lit)); i += f.stride {
		c = append(c, f.lit[i])
	}
	return mkFLit(c, f.w)
}

func mkFBytes(b []byte) *FArr {
	v := make([]uint64, len(b))
	for i := range b {
		v[i] = uint64(b[i])
	}
	return mkFLit(v, 8)
}

func mkFStore(f *FArr, i, v *Term) *FArr {
	if f.op == FConst && f.t[0] == v {
		return f
	}
	if f.op == FStore {
		if f.t[0] == i {
			return mkFStore(f.f[0], i, v)
		}
	}
	if v.op == OSel && v.arr == f && v.a[0] == i {
		return f
	}
	return internF(FStore, f.w, []*FArr{f}, []*Term{i, v}, "", nil)
}

func mkFCopy(dst *FArr, dOff, n *Term, src *FArr, sOff *Term) *FArr {
	if n.isConst() {
		if n.v == 0 {
			return dst
		}
		if n.v == 1 {
			return mkFStore(dst, dOff, sel(src, sOff))
		}
	}
	if dst == src && dOff == sOff {
		return dst
	}
	// flatten: src is itself Copy(_, d2, n2, s2, o2) with [sOff,sOff+n) inside [d2,d2+n2)
	for src.op == FCopy {
		d2, n2, s2, o2 := src.t[0], src.t[1], src.f[1], src.t[2]
		rel := mkSub(sOff, d2)
		if mkLt0(rel).isFalse() && mkSle(mkAdd(rel, n), n2).isTrue() {
			sOff = mkAdd(o2, rel)
			src = s2
			continue
		}
		// disjoint: skip
		if mkSle(mkAdd(sOff, n), d2).isTrue() || mkSle(mkAdd(d2, n2), sOff).isTrue() {
			src = src.f[0]
			continue
		}
		break
	}
	// full overwrite of a previous copy at same place
	for dst.op == FCopy && dst.t[0] == dOff && (dst.t[1] == n || mkSle(dst.t[1], n).isTrue()) {
		dst = dst.f[0]
	}
	// undo: copying back what is there
	return internF(FCopy, dst.w, []*FArr{dst, src}, []*Term{dOff, n, sOff}, "", nil)
}

func mkFIte(c *Term, a, b *FArr) *FArr {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == ONot {
		return mkFIte(c.a[0], b, a)
	}
	if a.op == FIte && a.t[0] == c {
		a = a.f[0]
	}
	if b.op == FIte && b.t[0] == c {
		b = b.f[1]
	}
	if a == b {
		return a
	}
	// shared base: ite(c, store(x,i,v), x) = store(x,i,ite(c,v,x[i]))
	if a.op == FStore && a.f[0] == b {
		return mkFStore(b, a.t[0], mkIte(c, a.t[1], sel(b, a.t[0])))
	}
	if b.op == FStore && b.f[0] == a {
		return mkFStore(a, b.t[0], mkIte(c, sel(a, b.t[0]), b.t[1]))
	}
	if a.op == FStore && b.op == FStore && a.t[0] == b.t[0] && a.f[0] == b.f[0] {
		return mkFStore(a.f[0], a.t[0], mkIte(c, a.t[1], b.t[1]))
	}
	if a.op == FConst && b.op == FConst {
		return mkFConst(mkIte(c, a.t[0], b.t[0]))
	}
	if a.op == FIte && a.f[1] == b {
		return mkFIte(mkAnd(c, a.t[0]), a.f[0], b)
	}
	if b.op == FIte && b.f[0] == a {
		return mkFIte(mkOr(c, b.t[0]), a, b.f[1])
	}
	// ite(c, copy(x,d,n,s,o), x) = copy(x,d,ite(c,n,0),s,o)
	if a.op == FCopy && a.f[0] == b {
		return mkFCopy(b, a.t[0], mkIte(c, a.t[1], k64(0)), a.f[1], a.t[2])
	}
	if b.op == FCopy && b.f[0] == a {
		return mkFCopy(a, b.t[0], mkIte(c, k64(0), b.t[1]), b.f[1], b.t[2])
	}
	return internF(FIte, a.w, []*FArr{a, b}, []*Term{c}, "", nil)
}

var boundCount int

func mkFLambda(w uint8, body func(i *Term) *Term) *FArr { return mkFLambdaIn(w, 0, 1<<60, body) }

// mkFLambdaIn is a lambda for indices in a range.
func mkFLambdaIn(w uint8, lo, hi int64, body func(i *Term) *Term) *FArr {
	boundCount++
	v := mkVar(freshName("bnd"), 64)
	v.bnd = true
	v.setS(lo, hi)
	b := body(v)
	if !b.bnd {
		return mkFConst(b)
	}
	return internF(FLambda, w, nil, []*Term{v, b}, "", nil)
}

func rebuildF(f *FArr, na []*FArr, nt []*Term) *FArr {
	switch f.op {
	case FConst:
		return mkFConst(nt[0])
	case FStore:
		return mkFStore(na[0], nt[0], nt[1])
	case FCopy:
		return mkFCopy(na[0], nt[0], nt[1], na[1], nt[2])
	case FIte:
		return mkFIte(nt[0], na[0], na[1])
	case FLambda:
		return internF(FLambda, f.w, nil, nt, "", nil)
	}
	return f
}

func sel(f *FArr, i *Term) *Term {
	switch f.op {
	case FVarA:
		return intern(OSel, f.w, 0, []*Term{i}, nil, f, "")
	case FConst:
		return f.t[0]
	case FLit:
		if i.isConst() {
			return mkConst(f.litAt(i.v), f.w)
		}
		if f.stride > 0 {
			if i.op == OIte && (i.a[1].isConst() || i.a[2].isConst()) {
				return mkIte(i.a[0], sel(f, i.a[1]), sel(f, i.a[2]))
			}
			if l := toLin(i); l.c < f.stride {
				q := lin{ts: l.ts}
				ok := true
				for _, c := range l.co {
					ok = ok && c>>32<<32 == c
					q.co = append(q.co, c>>32)
				}
				if ok {
					if k := mkLin(q, 64); k.uhi < 1<<32 {
						return sel(f.column(l.c), k)
					}
				}
			}
			return intern(OSel, f.w, 0, []*Term{i}, nil, f, "")
		}
		return selLit(f, i)
	}
	k := selKey{f, i}
	if r, ok := tc.selMem[k]; ok {
		return r
	}
	var r *Term
	switch f.op {
	case FStore:
		// iterate down chains of stores that are decidably different
		e := mkEq(i, f.t[0])
		if e.isTrue() {
			r = f.t[1]
		} else if e.isFalse() {
			g := f.f[0]
			for g.op == FStore && mkEq(i, g.t[0]).isFalse() {
				g = g.f[0]
			}
			r = sel(g, i)
		} else {
			r = mkIte(e, f.t[1], sel(f.f[0], i))
		}
	case FCopy:
		rel := mkSub(i, f.t[0])
		ge := mkNot(mkLt0(rel))
		lt := mkSlt(rel, f.t[1])
		if ge.isFalse() || lt.isFalse() {
			r = sel(f.f[0], i)
		} else {
			in := mkAnd(ge, lt)
			if lt.op == OLt0 && ge.op == ONot && ge.a[0].op == OLt0 && mkAddC(lt.a[0], 1) == ge.a[0].a[0] && linExactS1(lt.a[0]) {
				in = mkEq0(ge.a[0].a[0]) // 0 <= x < 1
			}
			if in.isTrue() {
				r = sel(f.f[1], mkAdd(f.t[2], rel))
			} else {
				r = mkIte(in, sel(f.f[1], mkAdd(f.t[2], rel)), sel(f.f[0], i))
			}
		}
	case FIte:
		r = mkIte(f.t[0], sel(f.f[0], i), sel(f.f[1], i))
	case FLambda:
		s := newSubst()
		s.only = true
		s.t[f.t[0]] = i
		r = s.term(f.t[1])
	}
	tc.selMem[k] = r
	return r
}

func selLit(f *FArr, i *Term) *Term {
	n := uint64(len(f.lit))
	if n == 0 {
		return mkConst(0, f.w)
	}
	lo, hi := i.ulo, i.uhi
	if hi < n && hi-lo < 16 {
		r := mkConst(f.lit[hi], f.w)
		for k := int64(hi) - 1; k >= int64(lo); k-- {
			r = mkIte(mkEq(i, mkConst(uint64(k), 64)), mkConst(f.lit[k], f.w), r)
		}
		return r
	}
	if i.op == OIte && (i.a[1].isConst() || i.a[2].isConst()) {
		return mkIte(i.a[0], sel(f, i.a[1]), sel(f, i.a[2]))
	}
	all := true
	for _, x := range f.lit {
		if x != f.lit[0] {
			all = false
		}
	}
	if all && hi < n {
		return mkConst(f.lit[0], f.w)
	}
	return intern(OSel, f.w, 0, []*Term{i}, nil, f, "")
}

func linExactS1(t *Term) bool { return t.op != OLin || linExactS(t) }
