package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed DAG over booleans (w==0) and bit vectors (1..64 bits).
// Machine integers are exact bit vectors; every rewrite below is an
// equivalence in bit-vector arithmetic.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OIff
	OEq0  // a[0] == 0 (bit vector)
	OLt0  // a[0] <s 0
	OUlt  // raw unsigned <
	OSlt  // raw signed <
	OLin  // v + sum co[i]*a[i] (mod 2^w)
	OMul  // nonlinear
	OUDiv // smtlib semantics (x/0 = all ones); engine guards division by zero
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	OExtract // a[0][v+w-1:v]
	OConcat  // a[0] high, a[1] low
	OZExt
	OSExt
	OSel // arr(FVar or FLit), a[0] index
	OUF  // name, args
)

type Term struct {
	op   Op
	w    uint8
	bnd  bool // contains a lambda-bound variable
	id   int32
	v    uint64
	a    []*Term
	co   []uint64
	arr  *FArr
	name string
	ulo  uint64
	uhi  uint64
	slo  int64
	shi  int64
}

type tkey struct {
	op         Op
	w          uint8
	v          uint64
	a0, a1, a2 int32
	s          string
}

type TermCtx struct {
	tab    map[tkey]*Term
	next   int32
	farr   map[fkey]*FArr
	nextF  int32
	vars   []*Term
	selMem map[selKey]*Term
	fresh  int
}

var tc *TermCtx

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, farr: map[fkey]*FArr{}, selMem: map[selKey]*Term{}, next: 1}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.v == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.v == 0 }

func idsKey(a []*Term, co []uint64) string {
	var sb strings.Builder
	sb.Grow(len(a) * 8)
	var b [12]byte
	for i, t := range a {
		x := uint32(t.id)
		b[0], b[1], b[2], b[3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		n := 4
		if co != nil {
			c := co[i]
			for k := 0; k < 8; k++ {
				b[4+k] = byte(c >> (8 * k))
			}
			n = 12
		}
		sb.Write(b[:n])
	}
	return sb.String()
}

func intern(op Op, w uint8, v uint64, a []*Term, co []uint64, arr *FArr, name string) *Term {
	k := tkey{op: op, w: w, v: v}
	if op == OLin || len(a) > 3 || op == OUF {
		k.s = idsKey(a, co)
		if op == OUF {
			k.s = name + "|" + k.s
		}
		k.a0 = int32(len(a))
		if arr != nil {
			k.a2 = arr.id + 1
		}
	} else {
		switch len(a) {
		case 3:
			k.a2 = a[2].id
			fallthrough
		case 2:
			k.a1 = a[1].id
			fallthrough
		case 1:
			k.a0 = a[0].id
		}
		if op == OVar {
			k.s = name
		}
		if arr != nil {
			k.a2 = arr.id
		}
	}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, v: v, a: a, co: co, arr: arr, name: name, id: tc.next}
	tc.next++
	for _, x := range a {
		if x.bnd {
			t.bnd = true
		}
	}
	if arr != nil && arr.bnd {
		t.bnd = true
	}
	t.ulo, t.uhi = 0, mask(w)
	if w > 0 {
		t.slo, t.shi = -(int64(1) << (w - 1)), int64(mask(w)>>1)
		t.computeIval()
	}
	tc.tab[k] = t
	return t
}

// ---------------------------------------------------------------- intervals

func (t *Term) setU(lo, hi uint64) {
	if lo > t.ulo {
		t.ulo = lo
	}
	if hi < t.uhi {
		t.uhi = hi
	}
	t.syncIval()
}

func (t *Term) setS(lo, hi int64) {
	if lo > t.slo {
		t.slo = lo
	}
	if hi < t.shi {
		t.shi = hi
	}
	t.syncIval()
}

func (t *Term) syncIval() {
	half := uint64(1) << (t.w - 1)
	for k := 0; k < 2; k++ {
		if t.uhi < half { // nonneg
			if int64(t.ulo) > t.slo {
				t.slo = int64(t.ulo)
			}
			if int64(t.uhi) < t.shi {
				t.shi = int64(t.uhi)
			}
		} else if t.ulo >= half {
			l, h := sext64(t.ulo, t.w), sext64(t.uhi, t.w)
			if l > t.slo {
				t.slo = l
			}
			if h < t.shi {
				t.shi = h
			}
		}
		if t.slo >= 0 {
			if uint64(t.slo) > t.ulo {
				t.ulo = uint64(t.slo)
			}
			if uint64(t.shi) < t.uhi {
				t.uhi = uint64(t.shi)
			}
		} else if t.shi < 0 {
			l, h := uint64(t.slo)&mask(t.w), uint64(t.shi)&mask(t.w)
			if l > t.ulo {
				t.ulo = l
			}
			if h < t.uhi {
				t.uhi = h
			}
		}
	}
}

type i128 struct {
	hi int64
	lo uint64
}

func i128of(x int64) i128 {
	h := int64(0)
	if x < 0 {
		h = -1
	}
	return i128{h, uint64(x)}
}
func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(uint64(a.hi), uint64(b.hi), c)
	return i128{int64(hi), lo}
}
func mul128(a, b int64) i128 {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	h, l := bits.Mul64(ua, ub)
	r := i128{int64(h), l}
	if neg {
		lo, c := bits.Add64(^r.lo, 1, 0)
		hi := ^uint64(r.hi) + c
		r = i128{int64(hi), lo}
	}
	return r
}
func (a i128) less(b i128) bool {
	if a.hi != b.hi {
		return a.hi < b.hi
	}
	return a.lo < b.lo
}
func (a i128) fitsI64() bool {
	return (a.hi == 0 && int64(a.lo) >= 0) || (a.hi == -1 && int64(a.lo) < 0)
}
func (a i128) fitsU64() bool { return a.hi == 0 }

type ivfn func(t *Term) (slo, shi int64, ulo, uhi uint64)

func baseIv(t *Term) (int64, int64, uint64, uint64) { return t.slo, t.shi, t.ulo, t.uhi }

// linRange returns the range of the true (unbounded) integer value of the
// linear form, using for each atom its signed interval, or its unsigned one
// for atoms whose width is below 64 when that is what the coefficient form
// means (any consistent representative works modulo 2^w).
func linRange(w uint8, c uint64, a []*Term, co []uint64, iv ivfn) (lo, hi i128) {
	lo = i128of(sext64(c, w))
	hi = lo
	for i, t := range a {
		k := sext64(co[i], w)
		sl, sh, _, _ := iv(t)
		x, y := mul128(k, sl), mul128(k, sh)
		if y.less(x) {
			x, y = y, x
		}
		lo = lo.add(x)
		hi = hi.add(y)
	}
	return
}

func applyLinRange(t *Term, lo, hi i128) {
	if lo.fitsI64() && hi.fitsI64() {
		l, h := int64(lo.lo), int64(hi.lo)
		mn, mx := -(int64(1) << (t.w - 1)), int64(mask(t.w)>>1)
		if l >= mn && h <= mx {
			t.setS(l, h)
		}
	}
	if lo.fitsU64() && hi.fitsU64() && lo.hi == 0 {
		if hi.lo <= mask(t.w) && lo.lo <= hi.lo {
			t.setU(lo.lo, hi.lo)
		}
	}
}

func (t *Term) computeIval() {
	switch t.op {
	case OConst:
		t.setU(t.v, t.v)
	case OLin:
		lo, hi := linRange(t.w, t.v, t.a, t.co, baseIv)
		applyLinRange(t, lo, hi)
	case OIte:
		a, b := t.a[1], t.a[2]
		t.setU(minU(a.ulo, b.ulo), maxU(a.uhi, b.uhi))
		t.setS(minS(a.slo, b.slo), maxS(a.shi, b.shi))
	case OZExt:
		t.setU(t.a[0].ulo, t.a[0].uhi)
	case OSExt:
		t.setS(t.a[0].slo, t.a[0].shi)
	case OConcat:
		b := t.a[1]
		t.setU(t.a[0].ulo<<b.w+b.ulo, t.a[0].uhi<<b.w+b.uhi)
	case OExtract:
		if lo, hi := t.a[0].ulo>>t.v, t.a[0].uhi>>t.v; lo>>t.w == hi>>t.w {
			t.setU(lo&mask(t.w), hi&mask(t.w))
		}
	case OUDiv:
		if t.a[1].ulo > 0 {
			t.setU(t.a[0].ulo/t.a[1].uhi, t.a[0].uhi/t.a[1].ulo)
		}
	case OURem:
		if t.a[1].ulo > 0 {
			h := t.a[1].uhi - 1
			if t.a[0].uhi < h {
				h = t.a[0].uhi
			}
			t.setU(0, h)
		}
	case OLshr:
		if t.a[1].isConst() {
			s := t.a[1].v
			if s < 64 {
				t.setU(t.a[0].ulo>>s, t.a[0].uhi>>s)
			} else {
				t.setU(0, 0)
			}
		} else {
			t.setU(0, t.a[0].uhi)
		}
	case OBAnd:
		t.setU(0, minU(t.a[0].uhi, t.a[1].uhi))
	case OBOr, OBXor:
		m := t.a[0].uhi | t.a[1].uhi
		n := bits.Len64(m)
		lo := uint64(0)
		if t.op == OBOr {
			lo = maxU(t.a[0].ulo, t.a[1].ulo)
		}
		t.setU(lo, minU(mask(uint8(n)), mask(t.w)))
	case OMul:
		h, l := bits.Mul64(t.a[0].uhi, t.a[1].uhi)
		if h == 0 && l <= mask(t.w) {
			t.setU(t.a[0].ulo*t.a[1].ulo, l)
		}
	case OUF:
		if r, ok := ufRange[t.name]; ok {
			t.setS(r[0], r[1])
		}
	case OSel:
		if t.arr.op == FLit {
			lo, hi := mask(t.w), uint64(0)
			for _, x := range t.arr.lit {
				lo, hi = minU(lo, x), maxU(hi, x)
			}
			if t.arr.stride > 0 {
				t.setU(0, hi)
			} else if t.a[0].uhi < uint64(len(t.arr.lit)) {
				t.setU(lo, hi)
			}
		} else if t.arr.op == FVarA && t.arr.hasIv {
			t.setU(t.arr.ulo, t.arr.uhi)
			t.setS(t.arr.slo, t.arr.shi)
		}
	}
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}
func minS(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func maxS(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- builders

var tTrue, tFalse *Term

func initTerms() {
	tc = newTermCtx()
	tTrue = intern(OConst, 0, 1, nil, nil, nil, "")
	tFalse = intern(OConst, 0, 0, nil, nil, nil, "")
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkConst(v uint64, w uint8) *Term {
	if w == 0 {
		return mkBool(v&1 == 1)
	}
	return intern(OConst, w, v&mask(w), nil, nil, nil, "")
}

func k64(v int64) *Term { return mkConst(uint64(v), 64) }

// mkVar makes (or returns) the variable of that name.
func mkVar(name string, w uint8) *Term {
	k := tkey{op: OVar, w: w, s: name}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := intern(OVar, w, 0, nil, nil, nil, name)
	tc.vars = append(tc.vars, t)
	return t
}

func freshName(base string) string {
	tc.fresh++
	return fmt.Sprintf("%s!%d", base, tc.fresh)
}

func mkFresh(base string, w uint8) *Term { return mkVar(freshName(base), w) }

// mkRangeVar makes a fresh 64-bit variable known to lie in [lo,hi] (signed).
func mkRangeVar(base string, w uint8, lo, hi int64) *Term {
	t := mkFresh(base, w)
	t.setS(lo, hi)
	return t
}

func mkNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return mkBool(a.v == 0)
	case ONot:
		return a.a[0]
	case OLt0:
		// not (l < 0)  ==  -l - 1 < 0   when -l-1 does not overflow: it never
		// does ( -l-1 = ~l ), so this is exact for every bit vector.
		n := mkLt0(mkBNot(a.a[0]))
		// keep whichever was created first as canonical
		if n.op == OLt0 && n.id < a.id {
			return n
		}
		return intern(ONot, 0, 0, []*Term{a}, nil, nil, "")
	case OIte:
		if a.w == 0 {
			return mkIte(a.a[0], mkNot(a.a[1]), mkNot(a.a[2]))
		}
	}
	return intern(ONot, 0, 0, []*Term{a}, nil, nil, "")
}

func isNotOf(a, b *Term) bool {
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return true
	}
	return a.op == OLt0 && b.op == OLt0 && mkNot(a) == b
}

func negated(t *Term) *Term {
	// cheap syntactic negation used for complement detection
	if t.op == ONot {
		return t.a[0]
	}
	if t.op == OLt0 {
		return mkNot(t)
	}
	k := tkey{op: ONot, a0: t.id}
	if n, ok := tc.tab[k]; ok {
		return n
	}
	return nil
}

func mkAnd(ts ...*Term) *Term { return mkAndOr(OAnd, ts) }
func mkOr(ts ...*Term) *Term  { return mkAndOr(OOr, ts) }

func mkAndOr(op Op, ts []*Term) *Term {
	unit, zero := tTrue, tFalse
	dual := OOr
	if op == OOr {
		unit, zero = tFalse, tTrue
		dual = OAnd
	}
	set := map[*Term]bool{}
	var list []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || set[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.a {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if n := negated(t); n != nil && set[n] {
			return false
		}
		set[t] = true
		list = append(list, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// absorption and unit propagation against dual members
	if len(list) <= 64 {
		again := true
		for again {
			again = false
			for i, t := range list {
				if t.op != dual {
					continue
				}
				drop := false
				var rest []*Term
				changed := false
				for _, x := range t.a {
					if set[x] {
						drop = true
						break
					}
					if n := negated(x); n != nil && set[n] {
						changed = true
						continue
					}
					rest = append(rest, x)
				}
				if drop || changed {
					delete(set, t)
					list = append(list[:i:i], list[i+1:]...)
					if !drop {
						if !add(mkAndOr(dual, rest)) {
							return zero
						}
					}
					again = true
					break
				}
			}
		}
	}
	if len(list) == 0 {
		return unit
	}
	if len(list) == 1 {
		return list[0]
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	if len(list) == 2 && list[0].op == dual && list[1].op == dual {
		// (a|b)&(a|~b) -> a  (and dually)
		x, y := list[0], list[1]
		if len(x.a) == 2 && len(y.a) == 2 {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if x.a[i] == y.a[j] && isNotOf(x.a[1-i], y.a[1-j]) {
						return x.a[i]
					}
				}
			}
		}
	}
	return intern(op, 0, 0, list, nil, nil, "")
}

func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, t, e *Term) *Term {
	if c.isTrue() {
		return t
	}
	if c.isFalse() {
		return e
	}
	if t == e {
		return t
	}
	if c.op == ONot {
		return mkIte(c.a[0], e, t)
	}
	if t.w == 0 {
		if t.isTrue() {
			return mkOr(c, e)
		}
		if t.isFalse() {
			return mkAnd(mkNot(c), e)
		}
		if e.isTrue() {
			return mkOr(mkNot(c), t)
		}
		if e.isFalse() {
			return mkAnd(c, t)
		}
		if t == c {
			return mkOr(c, e)
		}
		if e == c {
			return mkAnd(c, t)
		}
		if isNotOf(t, c) {
			return mkAnd(mkNot(c), e)
		}
		if isNotOf(e, c) {
			return mkOr(mkNot(c), t)
		}
		if isNotOf(t, e) {
			return mkIff(c, t)
		}
	}
	if t.op == OIte {
		if t.a[0] == c {
			return mkIte(c, t.a[1], e)
		}
	}
	if e.op == OIte {
		if e.a[0] == c {
			return mkIte(c, t, e.a[2])
		}
		if e.a[1] == t { // ite(c,t,ite(d,t,x)) = ite(c|d,t,x)
			return mkIte(mkOr(c, e.a[0]), t, e.a[2])
		}
		if e.a[2] == t { // ite(c,t,ite(d,x,t)) = ite(~c&d, x, t)
			return mkIte(mkAnd(mkNot(c), e.a[0]), e.a[1], t)
		}
	}
	if t.op == OIte {
		if t.a[2] == e { // ite(c, ite(d,x,e), e) = ite(c&d,x,e)
			return mkIte(mkAnd(c, t.a[0]), t.a[1], e)
		}
		if t.a[1] == e { // ite(c, ite(d,e,x), e) = ite(c&~d, x, e)
			return mkIte(mkAnd(c, mkNot(t.a[0])), t.a[2], e)
		}
	}
	// ite(x==k, k, x) = x
	if t.w > 0 && c.op == OEq0 {
		if d := mkSub(t, e); d == c.a[0] || mkNeg(d) == c.a[0] {
			return e
		}
	}
	// the same where x==k is known by x<=k or x>=k
	if t.w > 0 && c.op == OLt0 && c.a[0].w == t.w {
		if x := c.a[0]; x.shi == 0 { // x<0 unless 0
			if d := mkSub(t, e); d == x || mkNeg(d) == x {
				return t
			}
		} else if x.slo == -1 { // x<0 only when -1
			y := mkAddC(x, 1)
			if d := mkSub(t, e); d == y || mkNeg(d) == y {
				return e
			}
		}
	}
	return intern(OIte, t.w, 0, []*Term{c, t, e}, nil, nil, "")
}

func mkIff(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isNotOf(a, b) {
		return tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.v == 1 {
			return a
		}
		return mkNot(a)
	}
	if a.op == ONot && b.op == ONot {
		return mkIff(a.a[0], b.a[0])
	}
	if a.op == ONot {
		return mkNot(mkIff(a.a[0], b))
	}
	if b.op == ONot {
		return mkNot(mkIff(a, b.a[0]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(OIff, 0, 0, []*Term{a, b}, nil, nil, "")
}

// ---- linear arithmetic

type lin struct {
	c  uint64
	ts []*Term
	co []uint64
}

func toLin(t *Term) lin {
	if t.op == OLin {
		return lin{t.v, t.a, t.co}
	}
	if t.op == OConst {
		return lin{c: t.v}
	}
	return lin{0, []*Term{t}, []uint64{1}}
}

func linScale(l lin, k uint64) lin {
	r := lin{c: l.c * k}
	for i, t := range l.ts {
		r.ts = append(r.ts, t)
		r.co = append(r.co, l.co[i]*k)
	}
	return r
}

func linAdd(a, b lin) lin {
	r := lin{c: a.c + b.c}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].id < b.ts[j].id):
			r.ts = append(r.ts, a.ts[i])
			r.co = append(r.co, a.co[i])
			i++
		case i >= len(a.ts) || b.ts[j].id < a.ts[i].id:
			r.ts = append(r.ts, b.ts[j])
			r.co = append(r.co, b.co[j])
			j++
		default:
			r.ts = append(r.ts, a.ts[i])
			r.co = append(r.co, a.co[i]+b.co[j])
			i++
			j++
		}
	}
	return r
}

func mkLin(l lin, w uint8) *Term {
	m := mask(w)
	var ts []*Term
	var co []uint64
	for i, t := range l.ts {
		c := l.co[i] & m
		if c == 0 {
			continue
		}
		ts = append(ts, t)
		co = append(co, c)
	}
	c := l.c & m
	if len(ts) == 0 {
		return mkConst(c, w)
	}
	if len(ts) == 1 && co[0] == 1 && c == 0 {
		return ts[0]
	}
	if len(ts) >= 2 {
		for i, t := range ts {
			if t.op != OZExt || t.a[0].op != OExtract || t.a[0].v == 0 || co[i]&1 != 0 {
				continue
			}
			for d := uint64(1); d <= t.a[0].v && co[i]&(1<<d-1) == 0; d++ {
				if r := recombine(c, ts, co, i, w, d); r != nil {
					return r
				}
			}
		}
	}
	// lift ite with constant branches: k + c*ite(p,x,y) with both const -> ite
	if len(ts) == 1 && ts[0].op == OIte && ts[0].a[1].isConst() && ts[0].a[2].isConst() {
		x := ts[0]
		return mkIte(x.a[0], mkConst(c+co[0]*x.a[1].v, w), mkConst(c+co[0]*x.a[2].v, w))
	}
	return intern(OLin, w, c, ts, co, nil, "")
}

// recombine joins 2^d*V[lo..] + V[lo-d..lo) into V[lo-d..].
func recombine(c uint64, ts []*Term, co []uint64, i int, w uint8, d uint64) *Term {
	e := ts[i].a[0]
	V, lo := e.a[0], e.v
	cl := co[i] >> d
	low := toLin(mkZExt(mkExtract(V, lo-d, uint8(d)), w))
	if len(low.ts) == 0 {
		return nil
	}
	for j, x := range low.ts {
		found := false
		for k, y := range ts {
			if y == x && k != i && co[k] == low.co[j]*cl&mask(w) {
				found = true
			}
		}
		if !found {
			return nil
		}
	}
	rest := lin{c: c - low.c*cl}
	for k, y := range ts {
		if k == i {
			continue
		}
		used := false
		for _, x := range low.ts {
			if x == y {
				used = true
			}
		}
		if !used {
			rest.ts = append(rest.ts, y)
			rest.co = append(rest.co, co[k])
		}
	}
	return mkLin(linAdd(rest, linScale(toLin(mkZExt(mkExtract(V, lo-d, e.w+uint8(d)), w)), cl)), w)
}

func mkAdd(a, b *Term) *Term { return mkLin(linAdd(toLin(a), toLin(b)), a.w) }
func mkSub(a, b *Term) *Term { return mkLin(linAdd(toLin(a), linScale(toLin(b), ^uint64(0))), a.w) }
func mkNeg(a *Term) *Term    { return mkLin(linScale(toLin(a), ^uint64(0)), a.w) }
func mkMulC(a *Term, k uint64) *Term {
	return mkLin(linScale(toLin(a), k), a.w)
}
func mkAddC(a *Term, k int64) *Term { return mkAdd(a, mkConst(uint64(k), a.w)) }

func mkMul(a, b *Term) *Term {
	if a.isConst() {
		return mkMulC(b, a.v)
	}
	if b.isConst() {
		return mkMulC(a, b.v)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(OMul, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkBNot(a *Term) *Term { // ~a = -a-1
	return mkAddC(mkNeg(a), -1)
}

// splitPow2 tries to write t (unsigned) as q*2^k + r, 0<=r<2^k, without overflow.
func splitPow2(t *Term, k uint) (q, r *Term, ok bool) {
	w := t.w
	if t.isConst() {
		return mkConst(t.v>>k, w), mkConst(t.v&mask(uint8(k)), w), true
	}
	if t.uhi <= mask(uint8(k)) {
		return mkConst(0, w), t, true
	}
	if t.op == OZExt && t.a[0].op == OConcat && uint(t.a[0].a[1].w) == k {
		return mkZExt(t.a[0].a[0], w), mkZExt(t.a[0].a[1], w), true
	}
	if t.op == OConcat && uint(t.a[1].w) == k {
		return mkZExt(t.a[0], w), mkZExt(t.a[1], w), true
	}
	if t.op == OIte && t.a[1].op != OIte && t.a[2].op != OIte {
		q1, r1, ok1 := splitPow2(t.a[1], k)
		if ok1 {
			q2, r2, ok2 := splitPow2(t.a[2], k)
			if ok2 {
				return mkIte(t.a[0], q1, q2), mkIte(t.a[0], r1, r2), true
			}
		}
	}
	l := toLin(t)
	m := mask(uint8(k))
	var qd, rd lin
	qd.c, rd.c = l.c&^m, l.c&m
	for i, x := range l.ts {
		if l.co[i]&m == 0 {
			qd.ts = append(qd.ts, x)
			qd.co = append(qd.co, l.co[i])
		} else {
			rd.ts = append(rd.ts, x)
			rd.co = append(rd.co, l.co[i])
		}
	}
	if len(qd.ts) == 0 && qd.c == 0 {
		return nil, nil, false
	}
	lo, hi := linRange(w, rd.c, rd.ts, rd.co, baseIv)
	if w == 64 && (lo.hi != 0 || lo.lo > m) && lo.fitsI64() && absU(int64(lo.lo)) < 1<<61 && k < 61 && absU(int64(l.c)) < 1<<61 {
		// choose the constant so that the remainder starts in [0,2^k)
		j := floorDiv(int64(lo.lo), int64(1)<<k)
		rd.c -= uint64(j) << k
		qd.c += uint64(j) << k
		lo, hi = linRange(w, rd.c, rd.ts, rd.co, baseIv)
	}
	rt := mkLin(rd, w)
	if !(lo.fitsU64() && hi.fitsU64() && lo.hi == 0 && hi.lo <= m) {
		return nil, nil, false
	}
	// the whole must be an exact unsigned value: true range within [0,2^w)
	if !linExactU(t) {
		return nil, nil, false
	}
	// quotient: divide const and coefs by 2^k as signed
	var qq lin
	qq.c = uint64(sext64(qd.c, w) >> k)
	for i, x := range qd.ts {
		qq.ts = append(qq.ts, x)
		qq.co = append(qq.co, uint64(sext64(qd.co[i], w)>>k))
	}
	return mkLin(qq, w), rt, true
}

// splitMod returns q with t = q*2^k + r modulo 2^w for some 0<=r<2^k; only
// the low w-k bits of q mean anything.
func splitMod(t *Term, k uint) *Term {
	if t.op != OLin || k >= 60 {
		return nil
	}
	w := t.w
	m := mask(uint8(k))
	rd := lin{}
	qq := lin{}
	c := sext64(t.v, w)
	if absU(c) >= 1<<61 {
		return nil
	}
	for i, x := range t.a {
		if t.co[i]&m == 0 {
			qq.ts = append(qq.ts, x)
			qq.co = append(qq.co, uint64(sext64(t.co[i], w)>>k))
		} else {
			rd.ts = append(rd.ts, x)
			rd.co = append(rd.co, t.co[i])
		}
	}
	lo, hi := linRange(w, 0, rd.ts, rd.co, baseIv)
	const lim = int64(1) << 61
	if !lo.fitsI64() || !hi.fitsI64() || int64(lo.lo) < -lim || int64(hi.lo) > lim {
		return nil
	}
	// t = sum(q) + (c + sum(r)), with c + sum(r) in [c+lo, c+hi]
	j := floorDiv(c+int64(lo.lo), int64(1)<<k)
	if floorDiv(c+int64(hi.lo), int64(1)<<k) != j {
		return nil
	}
	qq.c = uint64(j)
	return mkLin(qq, w)
}

// linExactU: the unsigned value equals the integer linear combination (with signed atom values).
func linExactU(t *Term) bool {
	l := toLin(t)
	lo, hi := linRange(t.w, l.c, l.ts, l.co, baseIv)
	if lo.hi < 0 {
		return false
	}
	return hi.fitsU64() && hi.lo <= mask(t.w)
}

func linExactS(t *Term) bool {
	if t.w == 1 {
		return false // 1 and -1 are the same coefficient
	}
	l := toLin(t)
	lo, hi := linRange(t.w, l.c, l.ts, l.co, baseIv)
	if !lo.fitsI64() || !hi.fitsI64() {
		return false
	}
	if t.w == 64 {
		// stay far from the ends of int64, so that no caller's own
		// arithmetic on constants and coefficients can wrap
		const lim = int64(1) << 61
		for _, c := range append([]uint64{l.c}, l.co...) {
			if int64(c) < -lim || int64(c) > lim {
				return false
			}
		}
		return int64(lo.lo) >= -lim && int64(hi.lo) <= lim
	}
	for _, c := range append([]uint64{l.c}, l.co...) {
		if c == 1<<(t.w-1) {
			return false // its own negation
		}
	}
	return int64(lo.lo) >= -(int64(1)<<(t.w-1)) && int64(hi.lo) <= int64(mask(t.w)>>1)
}

func isPow2(v uint64) (uint, bool) {
	if v != 0 && v&(v-1) == 0 {
		return uint(bits.TrailingZeros64(v)), true
	}
	return 0, false
}

func mkUDiv(a, b *Term) *Term {
	if b.isConst() {
		if b.v == 1 {
			return a
		}
		if a.isConst() && b.v != 0 {
			return mkConst(a.v/b.v, a.w)
		}
		if k, ok := isPow2(b.v); ok {
			return mkLshrC(a, k)
		}
		if b.v != 0 {
			if a.uhi < b.v {
				return mkConst(0, a.w)
			}
			if q, _, ok := splitDiv(a, b.v); ok {
				return q
			}
		}
	}
	return intern(OUDiv, a.w, 0, []*Term{a, b}, nil, nil, "")
}

// splitDiv writes a = q*d + r with 0<=r<d for constant d when visible.
func splitDiv(t *Term, d uint64) (q, r *Term, ok bool) {
	w := t.w
	l := toLin(t)
	if !linExactU(t) {
		return nil, nil, false
	}
	var qd, rd lin
	sd := int64(d)
	if sd <= 0 {
		return nil, nil, false
	}
	c := sext64(l.c, w)
	rc := ((c % sd) + sd) % sd
	qd.c, rd.c = uint64((c-rc)/sd), uint64(rc)
	for i, x := range l.ts {
		k := sext64(l.co[i], w)
		if k%sd == 0 {
			qd.ts = append(qd.ts, x)
			qd.co = append(qd.co, uint64(k/sd))
		} else {
			rd.ts = append(rd.ts, x)
			rd.co = append(rd.co, l.co[i])
		}
	}
	lo, hi := linRange(w, rd.c, rd.ts, rd.co, baseIv)
	if !(lo.fitsU64() && hi.fitsU64() && hi.lo < d) {
		return nil, nil, false
	}
	return mkLin(qd, w), mkLin(rd, w), true
}

func mkURem(a, b *Term) *Term {
	if b.isConst() && b.v == 1 {
		return mkConst(0, a.w)
	}
	if b.isConst() && b.v != 0 {
		if a.isConst() {
			return mkConst(a.v%b.v, a.w)
		}
		if a.uhi < b.v {
			return a
		}
		if k, ok := isPow2(b.v); ok {
			return mkZExt(mkExtract(a, 0, uint8(k)), a.w)
		}
		if _, r, ok := splitDiv(a, b.v); ok {
			return r
		}
	}
	return intern(OURem, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkSDiv(a, b *Term) *Term {
	if a.slo >= 0 && b.slo >= 0 {
		return mkUDiv(a, b)
	}
	if a.isConst() && b.isConst() && b.v != 0 {
		x, y := sext64(a.v, a.w), sext64(b.v, b.w)
		if !(y == -1) {
			return mkConst(uint64(x/y), a.w)
		}
	}
	return intern(OSDiv, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkSRem(a, b *Term) *Term {
	if a.slo >= 0 && b.slo >= 0 {
		return mkURem(a, b)
	}
	if a.isConst() && b.isConst() && b.v != 0 {
		x, y := sext64(a.v, a.w), sext64(b.v, b.w)
		if y == -1 {
			return mkConst(0, a.w)
		}
		return mkConst(uint64(x%y), a.w)
	}
	return intern(OSRem, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkLshrC(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		return mkConst(0, a.w)
	}
	if q, _, ok := splitPow2(a, k); ok {
		return q
	}
	return mkZExt(mkExtract(a, uint64(k), a.w-uint8(k)), a.w)
}

// mkShl etc: Go semantics with already-unsigned shift count b (same width).
func mkShl(a, b *Term) *Term {
	if b.isConst() {
		if b.v >= uint64(a.w) {
			return mkConst(0, a.w)
		}
		return mkMulC(a, uint64(1)<<b.v)
	}
	return intern(OShl, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkLshr(a, b *Term) *Term {
	if b.isConst() {
		if b.v >= uint64(a.w) {
			return mkConst(0, a.w)
		}
		return mkLshrC(a, uint(b.v))
	}
	if a.isConst() && a.v == 0 {
		return a
	}
	return intern(OLshr, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkAshr(a, b *Term) *Term {
	if a.slo >= 0 {
		return mkLshr(a, b)
	}
	if a.isConst() && b.isConst() {
		s := b.v
		if s > 63 {
			s = 63
		}
		return mkConst(uint64(sext64(a.v, a.w)>>s), a.w)
	}
	return intern(OAshr, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkBAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.v&b.v, a.w)
	}
	if b.isConst() {
		if b.v == 0 {
			return b
		}
		if b.v == mask(a.w) {
			return a
		}
		// low mask
		if k, ok := isPow2(b.v + 1); ok {
			if a.uhi <= b.v {
				return a
			}
			return mkZExt(mkExtract(a, 0, uint8(k)), a.w)
		}
		// contiguous mask: bits lo..hi
		tz := uint(bits.TrailingZeros64(b.v))
		if k, ok := isPow2((b.v >> tz) + 1); ok {
			ex := mkExtract(a, uint64(tz), uint8(k))
			return mkMulC(mkZExt(ex, a.w), uint64(1)<<tz)
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return mkIte(a.a[0], mkBAnd(a.a[1], b), mkBAnd(a.a[2], b))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return intern(OBAnd, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkBOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.v|b.v, a.w)
	}
	if b.isConst() && b.v == 0 {
		return a
	}
	if b.isConst() && b.v == mask(a.w) {
		return b
	}
	// disjoint bits: or == add
	if zeroMask(a)|zeroMask(b) == mask(a.w) {
		return mkAdd(a, b)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return intern(OBOr, a.w, 0, []*Term{a, b}, nil, nil, "")
}

// zeroMask returns bits known to be zero.
func zeroMask(t *Term) uint64 {
	m := mask(t.w)
	if t.isConst() {
		return ^t.v & m
	}
	z := m &^ mask(uint8(bits.Len64(t.uhi)))
	switch t.op {
	case OLin:
		tz := uint(64)
		if t.v != 0 {
			tz = uint(bits.TrailingZeros64(t.v))
		}
		for i := range t.a {
			k := uint(bits.TrailingZeros64(t.co[i])) + uint(bits.TrailingZeros64(^zeroMask(t.a[i])))
			if k < tz {
				tz = k
			}
		}
		if tz > 64 {
			tz = 64
		}
		z |= mask(uint8(tz)) & m
		// single term c*x (c=2^k) : shift known zeros
		if len(t.a) == 1 && t.v == 0 {
			if k, ok := isPow2(t.co[0]); ok {
				z |= (zeroMask(t.a[0]) << k) & m
			}
		}
	case OZExt:
		z |= zeroMask(t.a[0]) | (m &^ mask(t.a[0].w))
	case OBAnd:
		z |= zeroMask(t.a[0]) | zeroMask(t.a[1])
	case OBOr, OBXor:
		z |= zeroMask(t.a[0]) & zeroMask(t.a[1])
	case OIte:
		z |= zeroMask(t.a[1]) & zeroMask(t.a[2])
	}
	return z & m
}

func mkBXor(a, b *Term) *Term {
	if a == b {
		return mkConst(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.v^b.v, a.w)
	}
	if b.isConst() && b.v == 0 {
		return a
	}
	if b.isConst() && b.v == mask(a.w) {
		return mkBNot(a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return intern(OBXor, a.w, 0, []*Term{a, b}, nil, nil, "")
}

func mkExtract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w == 0 {
		panic("extract width 0")
	}
	switch a.op {
	case OConst:
		return mkConst(a.v>>lo, w)
	case OExtract:
		return mkExtract(a.a[0], a.v+lo, w)
	case OZExt, OSExt:
		in := a.a[0]
		if lo+uint64(w) <= uint64(in.w) {
			return mkExtract(in, lo, w)
		}
		if a.op == OZExt {
			if lo >= uint64(in.w) {
				return mkConst(0, w)
			}
			return mkZExt(mkExtract(in, lo, in.w-uint8(lo)), w)
		}
		if lo == 0 {
			return mkSExt(in, w)
		}
	case OConcat:
		h, l := a.a[0], a.a[1]
		if lo+uint64(w) <= uint64(l.w) {
			return mkExtract(l, lo, w)
		}
		if lo >= uint64(l.w) {
			return mkExtract(h, lo-uint64(l.w), w)
		}
		lp := mkExtract(l, lo, l.w-uint8(lo))
		hp := mkExtract(h, 0, w-lp.w)
		return mkConcat(hp, lp)
	case OIte:
		if lo == 0 || a.a[1].isConst() || a.a[2].isConst() {
			return mkIte(a.a[0], mkExtract(a.a[1], lo, w), mkExtract(a.a[2], lo, w))
		}
	case OLin:
		if lo == 0 {
			r := lin{c: a.v}
			acc := mkConst(a.v, w)
			_ = r
			for i, x := range a.a {
				if a.co[i]&mask(w) == 0 {
					continue
				}
				acc = mkAdd(acc, mkMulC(mkExtract(x, 0, w), a.co[i]))
			}
			return acc
		}
		if q, _, ok := splitPow2(a, uint(lo)); ok {
			return mkExtract(q, 0, w)
		}
		if q := splitMod(a, uint(lo)); q != nil {
			return mkExtract(q, 0, w)
		}
	case OBAnd:
		if a.a[1].isConst() {
			return mkBAnd(mkExtract(a.a[0], lo, w), mkExtract(a.a[1], lo, w))
		}
		if lo == 0 {
			return mkBAnd(mkExtract(a.a[0], lo, w), mkExtract(a.a[1], lo, w))
		}
	case OBOr:
		return mkBOr(mkExtract(a.a[0], lo, w), mkExtract(a.a[1], lo, w))
	case OBXor:
		return mkBXor(mkExtract(a.a[0], lo, w), mkExtract(a.a[1], lo, w))
	}
	if lo > 0 && a.uhi>>lo == 0 {
		return mkConst(0, w)
	}
	return intern(OExtract, w, lo, []*Term{a}, nil, nil, "")
}

func mkConcat(h, l *Term) *Term {
	w := h.w + l.w
	if h.isConst() && l.isConst() {
		return mkConst(h.v<<l.w|l.v, w)
	}
	if h.isConst() && h.v == 0 {
		return mkZExt(l, w)
	}
	if h.op == OExtract && l.op == OExtract && h.a[0] == l.a[0] && l.v+uint64(l.w) == h.v {
		return mkExtract(h.a[0], l.v, w)
	}
	return intern(OConcat, w, 0, []*Term{h, l}, nil, nil, "")
}

func mkZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return mkExtract(a, 0, w)
	}
	switch a.op {
	case OConst:
		return mkConst(a.v, w)
	case OZExt:
		return mkZExt(a.a[0], w)
	case OExtract:
		if in := a.a[0]; a.v == 0 && in.w <= w && in.ulo>>a.w == in.uhi>>a.w {
			// the discarded high bits are constant
			return mkZExt(mkSub(in, mkConst(in.ulo&^mask(a.w), in.w)), w)
		}
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return mkIte(a.a[0], mkZExt(a.a[1], w), mkZExt(a.a[2], w))
		}
	case OConcat:
		return mkAdd(mkMulC(mkZExt(a.a[0], w), 1<<a.a[1].w), mkZExt(a.a[1], w))
	case OLin:
		// distribute when exact as an unsigned integer with unsigned atoms
		if l, off, ok := linUnsignedExact(a); ok {
			acc := mkConst(uint64(sext64(l.c, a.w)), w)
			for i, x := range l.ts {
				acc = mkAdd(acc, mkMulC(mkZExt(x, w), uint64(sext64(l.co[i], a.w))))
			}
			return mkSub(acc, mkConst(off, w))
		}
	}
	return intern(OZExt, w, 0, []*Term{a}, nil, nil, "")
}

// linUnsignedExact: value == sum of signed coefs * unsigned atoms - off, where
// off is a multiple of 2^w (that is, the sum stays in one window of size 2^w).
func linUnsignedExact(a *Term) (lin, uint64, bool) {
	l := toLin(a)
	uv := func(t *Term) (int64, int64, uint64, uint64) {
		if t.uhi > uint64(1)<<62 {
			return -(1 << 62), 1 << 62, 0, 0
		}
		return int64(t.ulo), int64(t.uhi), t.ulo, t.uhi
	}
	for _, t := range l.ts {
		if t.uhi > uint64(1)<<62 {
			return l, 0, false
		}
	}
	lo, hi := linRange(a.w, l.c, l.ts, l.co, uv)
	if lo.hi >= 0 && hi.fitsU64() && hi.lo <= mask(a.w) {
		return l, 0, true
	}
	if a.w <= 56 && lo.fitsI64() && hi.fitsI64() {
		s := int64(1) << a.w
		if j := floorDiv(int64(lo.lo), s); j == floorDiv(int64(hi.lo), s) {
			return l, uint64(j) * uint64(s), true
		}
	}
	return l, 0, false
}

func mkSExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return mkExtract(a, 0, w)
	}
	if a.isConst() {
		return mkConst(uint64(sext64(a.v, a.w)), w)
	}
	if a.slo >= 0 {
		return mkZExt(a, w)
	}
	if a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return mkIte(a.a[0], mkSExt(a.a[1], w), mkSExt(a.a[2], w))
	}
	if a.op == OLin && linExactS(a) {
		acc := mkConst(uint64(sext64(a.v, a.w)), w)
		for i, x := range a.a {
			acc = mkAdd(acc, mkMulC(mkSExt(x, w), uint64(sext64(a.co[i], a.w))))
		}
		return acc
	}
	return intern(OSExt, w, 0, []*Term{a}, nil, nil, "")
}

// ---- comparisons

var eqMemo = map[[2]*Term]*Term{}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w == 0 {
		return mkIff(a, b)
	}
	if a.op != OIte && b.op != OIte {
		return mkEq1(a, b)
	}
	k := [2]*Term{a, b}
	if r, ok := eqMemo[k]; ok {
		return r
	}
	r := mkEq1(a, b)
	if len(eqMemo) > 1<<20 {
		eqMemo = map[[2]*Term]*Term{}
	}
	eqMemo[k] = r
	return r
}

func mkEq1(a, b *Term) *Term {
	if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
		return tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return mkBool(a.v == b.v)
		}
		switch a.op {
		case OIte:
			x, y := mkEq(a.a[1], b), mkEq(a.a[2], b)
			if x.isConst() || y.isConst() || a.a[1].op != OIte && a.a[2].op != OIte {
				return mkIte(a.a[0], x, y)
			}
		case OZExt:
			if b.v > mask(a.a[0].w) {
				return tFalse
			}
			return mkEq(a.a[0], mkConst(b.v, a.a[0].w))
		case OSExt:
			return mkEqSExt(a, b)
		case OConcat:
			l := a.a[1]
			return mkAnd(mkEq(l, mkConst(b.v, l.w)), mkEq(a.a[0], mkConst(b.v>>l.w, a.a[0].w)))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return mkEq(a.a[0], b.a[0])
	}
	if a.op == OIte || b.op == OIte {
		if b.op == OIte && a.op != OIte {
			a, b = b, a
		}
		if a.op == OIte && !b.isConst() {
			if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
				return mkIte(a.a[0], mkEq(a.a[1], b.a[1]), mkEq(a.a[2], b.a[2]))
			}
			if a.a[1] == b {
				return mkOr(a.a[0], mkEq(a.a[2], b))
			}
			if a.a[2] == b {
				return mkOr(mkNot(a.a[0]), mkEq(a.a[1], b))
			}
		}
	}
	return mkEq0(mkSub(a, b))
}

func mkEqSExt(a, b *Term) *Term {
	in := a.a[0]
	if uint64(sext64(b.v&mask(in.w), in.w))&mask(b.w) != b.v {
		return tFalse
	}
	return mkEq(in, mkConst(b.v, in.w))
}

func mkEq0(d *Term) *Term {
	if d.isConst() {
		return mkBool(d.v == 0)
	}
	if d.ulo > 0 || d.slo > 0 || d.shi < 0 {
		return tFalse
	}
	if d.op == OLin {
		// odd single coefficient: solve
		if len(d.a) == 1 {
			if d.co[0]&1 == 1 {
				inv := modInv(d.co[0])
				k := (-d.v * inv) & mask(d.w)
				if d.co[0] != 1 {
					return mkEq(d.a[0], mkConst(k, d.w))
				}
				x := d.a[0]
				if k < x.ulo || k > x.uhi {
					return tFalse
				}
				switch x.op {
				case OZExt, OIte, OConcat, OSExt:
					// fold through mkEq (guard against recursion: mkEq comes back here only for other shapes)
					if x.op != OIte {
						return mkEq(x, mkConst(k, d.w))
					}
					p, q := mkEq(x.a[1], mkConst(k, d.w)), mkEq(x.a[2], mkConst(k, d.w))
					if p.isConst() || q.isConst() || x.a[1].op != OIte && x.a[2].op != OIte {
						return mkIte(x.a[0], p, q)
					}
				}
			} else {
				// c*x + v == 0 with exactness: divisibility
				if linExactS(d) {
					c, v := sext64(d.co[0], d.w), sext64(d.v, d.w)
					if c != 0 {
						if v%c != 0 {
							return tFalse
						}
						return mkEq(d.a[0], mkConst(uint64(-v/c), d.w))
					}
				}
			}
		} else {
			// exact: divide by gcd of coefficients
			if linExactS(d) {
				g := uint64(0)
				for _, c := range d.co {
					g = gcd(g, absU(sext64(c, d.w)))
				}
				if g > 1 {
					v := sext64(d.v, d.w)
					if v%int64(g) != 0 {
						return tFalse
					}
					l := lin{c: uint64(v / int64(g))}
					for i, x := range d.a {
						l.ts = append(l.ts, x)
						l.co = append(l.co, uint64(sext64(d.co[i], d.w)/int64(g)))
					}
					return mkEq0(mkLin(l, d.w))
				}
				// mixed radix split: parts divisible by 2^k vs. small remainder
				if r := eqRadixSplit(d); r != nil {
					return r
				}
			}
			if len(d.a) == 2 && d.v == 0 && (d.co[0]+d.co[1])&mask(d.w) == 0 && d.a[0].op == OZExt && d.a[1].op == OZExt && d.a[0].a[0].w == d.a[1].a[0].w && (d.co[0] == 1 || d.co[1] == 1) {
				return mkEq(d.a[0].a[0], d.a[1].a[0])
			}
		}
		// canonical sign
		if sext64(d.co[0], d.w) < 0 {
			n := mkNeg(d)
			if n.op == OLin && sext64(n.co[0], n.w) > 0 {
				return intern(OEq0, 0, 0, []*Term{n}, nil, nil, "")
			}
		}
	} else if d.op == OZExt {
		return mkEq0(d.a[0])
	} else if d.op == OIte {
		p, q := mkEq0(d.a[1]), mkEq0(d.a[2])
		if p.isConst() || q.isConst() || d.a[1].op != OIte && d.a[2].op != OIte {
			return mkIte(d.a[0], p, q)
		}
	} else if d.op == OConcat {
		return mkAnd(mkEq0(d.a[0]), mkEq0(d.a[1]))
	}
	return intern(OEq0, 0, 0, []*Term{d}, nil, nil, "")
}

// eqRadixSplit: sum(big) + rem == 0 where all big coefs share factor g and
// rem ranges strictly within (-g, g): then rem must be 0 or +-g multiples; if
// rem's range within (-g,g) then big + rem == 0 iff rem == 0 && big == 0
// (since big is a multiple of g and |rem|<g).
func eqRadixSplit(d *Term) *Term {
	for i := range d.co {
		g := absU(sext64(d.co[i], d.w))
		if g <= 1 {
			continue
		}
		var big, rem lin
		for j, x := range d.a {
			if absU(sext64(d.co[j], d.w))%g == 0 {
				big.ts = append(big.ts, x)
				big.co = append(big.co, d.co[j])
			} else {
				rem.ts = append(rem.ts, x)
				rem.co = append(rem.co, d.co[j])
			}
		}
		if len(rem.ts) == 0 && d.v == 0 {
			continue
		}
		v := sext64(d.v, d.w)
		// split constant so that remainder const in [0,g) or nearest to centre
		base := v / int64(g) * int64(g)
		for _, b := range []int64{base, base - int64(g), base + int64(g)} {
			rem.c = uint64(v - b)
			lo, hi := linRange(d.w, rem.c, rem.ts, rem.co, baseIv)
			if lo.fitsI64() && hi.fitsI64() && int64(lo.lo) > -int64(g) && int64(hi.lo) < int64(g) {
				big.c = uint64(b)
				return mkAnd(mkEq0(mkLin(rem, d.w)), mkEq0(mkLin(big, d.w)))
			}
		}
	}
	return nil
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func absU(x int64) uint64 {
	if x < 0 {
		return uint64(-x)
	}
	return uint64(x)
}

func modInv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func mkLt0(d *Term) *Term {
	if d.isConst() {
		return mkBool(sext64(d.v, d.w) < 0)
	}
	if d.slo >= 0 {
		return tFalse
	}
	if d.shi < 0 {
		return tTrue
	}
	if d.op == OIte {
		p, q := mkLt0(d.a[1]), mkLt0(d.a[2])
		if p.isConst() || q.isConst() {
			return mkIte(d.a[0], p, q)
		}
	}
	if d.op == OLin && linExactS(d) {
		// normalise by gcd of coefficients: sum + v < 0  <=> sum < -v  <=> sum/g < ceil(-v/g) ...
		g := uint64(0)
		for _, c := range d.co {
			g = gcd(g, absU(sext64(c, d.w)))
		}
		if g > 1 && g < 1<<62 {
			v := sext64(d.v, d.w)
			// g*S + v < 0  <=> S < -v/g  <=> S <= ceil(-v/g)-1 <=> S - ceil(-v/g) < 0 ; ceil(-v/g) = -floor(v/g)
			f := floorDiv(v, int64(g))
			l := lin{c: uint64(f)}
			for i, x := range d.a {
				l.ts = append(l.ts, x)
				l.co = append(l.co, uint64(sext64(d.co[i], d.w)/int64(g)))
			}
			return mkLt0(mkLin(l, d.w))
		}
		if r := lt0Radix(d); r != nil {
			return r
		}
		if len(d.a) == 1 && d.a[0].op == OIte {
			x := d.a[0]
			if x.a[1].isConst() || x.a[2].isConst() {
				l1 := lin{c: d.v}
				p := mkLt0(mkLin(linAdd(l1, linScale(toLin(x.a[1]), d.co[0])), d.w))
				q := mkLt0(mkLin(linAdd(l1, linScale(toLin(x.a[2]), d.co[0])), d.w))
				if p.isConst() || q.isConst() {
					return mkIte(x.a[0], p, q)
				}
			}
		}
	}
	return intern(OLt0, 0, 0, []*Term{d}, nil, nil, "")
}

// lt0Radix: g*S + r < 0 with 0<=r<g for some g dividing most coefs: <=> S < 0.
func lt0Radix(d *Term) *Term {
	for i := range d.co {
		g := int64(absU(sext64(d.co[i], d.w)))
		if g <= 1 {
			continue
		}
		var big, rem lin
		for j, x := range d.a {
			if sext64(d.co[j], d.w)%g == 0 {
				big.ts = append(big.ts, x)
				big.co = append(big.co, uint64(sext64(d.co[j], d.w)/g))
			} else {
				rem.ts = append(rem.ts, x)
				rem.co = append(rem.co, d.co[j])
			}
		}
		if len(rem.ts) == 0 {
			continue
		}
		v := sext64(d.v, d.w)
		lo, hi := linRange(d.w, 0, rem.ts, rem.co, baseIv)
		const lim = int64(1) << 61
		if !lo.fitsI64() || !hi.fitsI64() || v < -lim || v > lim || g > lim || int64(lo.lo) < -lim || int64(hi.lo) > lim {
			continue
		}
		// choose b multiple of g such that rem + (v-b) in [0,g)
		q := floorDiv(v+int64(lo.lo), g)
		b := q * g
		if v-b+int64(lo.lo) >= 0 && v-b+int64(hi.lo) < g {
			big.c = uint64(q)
			return mkLt0(mkLin(big, d.w))
		}
	}
	return nil
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func mkSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.shi < b.slo {
		return tTrue
	}
	if a.slo >= b.shi {
		return tFalse
	}
	if a.w < 64 {
		return mkSlt(mkSExt(a, 64), mkSExt(b, 64))
	}
	// does a-b fit?
	lo := i128of(a.slo).add(mul128(-1, b.shi))
	hi := i128of(a.shi).add(mul128(-1, b.slo))
	if lo.fitsI64() && hi.fitsI64() {
		d := mkSub(a, b)
		return mkLt0(d)
	}
	// same linear part, exact: compare constants
	if b.isConst() && b.v == 0 {
		return mkLt0(a)
	}
	if b.isConst() && sext64(b.v, 64) == 1 && false {
		return nil
	}
	return intern(OSlt, 0, 0, []*Term{a, b}, nil, nil, "")
}

func mkUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.uhi < b.ulo {
		return tTrue
	}
	if a.ulo >= b.uhi {
		return tFalse
	}
	if a.w < 64 {
		return mkSlt(mkZExt(a, 64), mkZExt(b, 64))
	}
	if a.slo >= 0 && b.slo >= 0 {
		return mkSlt(a, b)
	}
	return intern(OUlt, 0, 0, []*Term{a, b}, nil, nil, "")
}

func mkSle(a, b *Term) *Term { return mkNot(mkSlt(b, a)) }
func mkUle(a, b *Term) *Term { return mkNot(mkUlt(b, a)) }

func mkUF(name string, w uint8, args ...*Term) *Term {
	return mkUFA(name, w, nil, args...)
}

// mkUFA is a function of an array and terms.
func mkUFA(name string, w uint8, arr *FArr, args ...*Term) *Term {
	return intern(OUF, w, 0, args, nil, arr, name)
}

// ufRange holds the ranges of the functions.
var ufRange = map[string][2]int64{}

// rebuild reconstructs a term with new arguments through the simplifier.
func rebuild(t *Term, a []*Term, arr *FArr) *Term {
	switch t.op {
	case OConst, OVar:
		return t
	case ONot:
		return mkNot(a[0])
	case OAnd:
		return mkAnd(a...)
	case OOr:
		return mkOr(a...)
	case OIte:
		return mkIte(a[0], a[1], a[2])
	case OIff:
		return mkIff(a[0], a[1])
	case OEq0:
		return mkEq0(a[0])
	case OLt0:
		return mkLt0(a[0])
	case OUlt:
		return mkUlt(a[0], a[1])
	case OSlt:
		return mkSlt(a[0], a[1])
	case OLin:
		acc := mkConst(t.v, t.w)
		for i, x := range a {
			acc = mkAdd(acc, mkMulC(x, t.co[i]))
		}
		return acc
	case OMul:
		return mkMul(a[0], a[1])
	case OUDiv:
		return mkUDiv(a[0], a[1])
	case OURem:
		return mkURem(a[0], a[1])
	case OSDiv:
		return mkSDiv(a[0], a[1])
	case OSRem:
		return mkSRem(a[0], a[1])
	case OShl:
		return mkShl(a[0], a[1])
	case OLshr:
		return mkLshr(a[0], a[1])
	case OAshr:
		return mkAshr(a[0], a[1])
	case OBAnd:
		return mkBAnd(a[0], a[1])
	case OBOr:
		return mkBOr(a[0], a[1])
	case OBXor:
		return mkBXor(a[0], a[1])
	case OExtract:
		return mkExtract(a[0], t.v, t.w)
	case OConcat:
		return mkConcat(a[0], a[1])
	case OZExt:
		return mkZExt(a[0], t.w)
	case OSExt:
		return mkSExt(a[0], t.w)
	case OSel:
		return sel(arr, a[0])
	case OUF:
		return mkUFA(t.name, t.w, arr, a...)
	}
	panic("rebuild: op")
}

// Subst holds a substitution of variables and array variables.
type Subst struct {
	t    map[*Term]*Term
	f    map[*FArr]*FArr
	mt   map[*Term]*Term
	mf   map[*FArr]*FArr
	only bool // only touch terms containing bound vars (lambda instantiation)
}

func newSubst() *Subst {
	return &Subst{t: map[*Term]*Term{}, f: map[*FArr]*FArr{}, mt: map[*Term]*Term{}, mf: map[*FArr]*FArr{}}
}

func (s *Subst) empty() bool { return len(s.t) == 0 && len(s.f) == 0 }

func (s *Subst) term(t *Term) *Term {
	if s.only && !t.bnd {
		return t
	}
	if r, ok := s.t[t]; ok {
		return r
	}
	if t.op == OConst || t.op == OVar {
		return t
	}
	if r, ok := s.mt[t]; ok {
		return r
	}
	changed := false
	na := make([]*Term, len(t.a))
	for i, x := range t.a {
		na[i] = s.term(x)
		if na[i] != x {
			changed = true
		}
	}
	arr := t.arr
	if arr != nil {
		arr = s.farr(arr)
		if arr != t.arr {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, na, arr)
	}
	s.mt[t] = r
	return r
}

func (s *Subst) farr(f *FArr) *FArr {
	if s.only && !f.bnd {
		return f
	}
	if r, ok := s.f[f]; ok {
		return r
	}
	if f.op == FVarA || f.op == FLit {
		return f
	}
	if r, ok := s.mf[f]; ok {
		return r
	}
	na := make([]*FArr, len(f.f))
	nt := make([]*Term, len(f.t))
	changed := false
	for i, x := range f.f {
		na[i] = s.farr(x)
		if na[i] != x {
			changed = true
		}
	}
	for i, x := range f.t {
		if f.op == FLambda && i == 0 {
			nt[i] = x
			continue
		}
		nt[i] = s.term(x)
		if nt[i] != x {
			changed = true
		}
	}
	r := f
	if changed {
		r = rebuildF(f, na, nt)
	}
	s.mf[f] = r
	return r
}
