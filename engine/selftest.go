package main

import (
	"fmt"
	"math/rand"
)

// The simplifier is part of the trusted base. selfTest checks each of its
// constructors against direct evaluation on random terms: for a random
// environment, the value of the built term must be the operation applied to
// the values of its arguments, and must lie in the interval computed for it.

type env struct {
	v  map[*Term]uint64
	f  map[*FArr]map[uint64]uint64
	rg *rand.Rand
	m  map[*Term]uint64
}

func (e *env) b(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

func (e *env) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.v
	}
	if r, ok := e.m[t]; ok {
		return r
	}
	r := e.eval0(t)
	if t.w == 0 {
		r &= 1
	} else {
		r &= mask(t.w)
	}
	e.m[t] = r
	return r
}

func (e *env) eval0(t *Term) uint64 {
	a := func(i int) uint64 { return e.eval(t.a[i]) }
	sa := func(i int) int64 { return sext64(e.eval(t.a[i]), t.a[i].w) }
	switch t.op {
	case OVar:
		if v, ok := e.v[t]; ok {
			return v
		}
		panic("selftest: unbound variable " + t.name)
	case ONot:
		return 1 - a(0)
	case OAnd:
		for i := range t.a {
			if a(i) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for i := range t.a {
			if a(i) == 1 {
				return 1
			}
		}
		return 0
	case OIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OIff:
		return e.b(a(0) == a(1))
	case OEq0:
		return e.b(a(0) == 0)
	case OLt0:
		return e.b(sa(0) < 0)
	case OUlt:
		return e.b(a(0) < a(1))
	case OSlt:
		return e.b(sa(0) < sa(1))
	case OLin:
		r := t.v
		for i := range t.a {
			r += t.co[i] * a(i)
		}
		return r
	case OMul, OUDiv, OURem, OSDiv, OSRem, OShl, OLshr, OAshr, OBAnd, OBOr, OBXor:
		return evalBin(t.op, a(0), a(1), t.w)
	case OBNot:
		return ^a(0)
	case OExtract:
		return a(0) >> t.v
	case OConcat:
		return a(0)<<t.a[1].w | a(1)
	case OZExt:
		return a(0)
	case OSExt:
		return uint64(sa(0))
	case OSel:
		return e.sel(t.arr, a(0))
	}
	panic("selftest: op")
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	sx, sy := sext64(x, w), sext64(y, w)
	switch op {
	case OMul:
		return x * y
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if sy == 0 {
			if sx >= 0 {
				return mask(w)
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx)
		}
		return uint64(sx / sy)
	case OSRem:
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx % sy)
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx >> y)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	}
	panic("evalBin")
}

func (e *env) sel(f *FArr, i uint64) uint64 {
	switch f.op {
	case FVarA:
		m := e.f[f]
		if m == nil {
			m = map[uint64]uint64{}
			e.f[f] = m
		}
		v, ok := m[i]
		if !ok {
			v = e.rg.Uint64() & mask(f.w)
			m[i] = v
		}
		return v
	case FConst:
		return e.eval(f.t[0])
	case FLit:
		return f.litAt(i)
	case FStore:
		if e.eval(f.t[0]) == i {
			return e.eval(f.t[1])
		}
		return e.sel(f.f[0], i)
	case FCopy:
		d, n, so := e.eval(f.t[0]), e.eval(f.t[1]), e.eval(f.t[2])
		if int64(i) >= int64(d) && int64(i) < int64(d+n) {
			return e.sel(f.f[1], i-d+so)
		}
		return e.sel(f.f[0], i)
	case FIte:
		if e.eval(f.t[0]) == 1 {
			return e.sel(f.f[0], i)
		}
		return e.sel(f.f[1], i)
	}
	panic(fmt.Sprintf("selftest: array op %v", f.op))
}

func selfTest(seed int64, rounds int) (checked int, err error) {
	rg := rand.New(rand.NewSource(seed))
	for round := 0; round < rounds; round++ {
		tc = newTermCtx()
		initTerms()
		var vars []*Term
		terms := map[uint8][]*Term{}
		widths := []uint8{0, 8, 16, 64}
		var envs []*env
		for k := 0; k < 6; k++ {
			envs = append(envs, &env{v: map[*Term]uint64{}, f: map[*FArr]map[uint64]uint64{}, rg: rg, m: map[*Term]uint64{}})
		}
		addVar := func(w uint8) {
			t := mkVar(fmt.Sprintf("v%d", len(vars)), w)
			lo, hi := int64(0), int64(0)
			if w == 64 && rg.Intn(4) > 0 {
				lo = int64(rg.Intn(200)) - 60
				hi = lo + int64(rg.Intn(1<<uint(rg.Intn(18))))
				t.setS(lo, hi)
				for _, e := range envs {
					v := lo + rg.Int63n(hi-lo+1)
					switch rg.Intn(4) {
					case 0:
						v = lo
					case 1:
						v = hi
					}
					e.v[t] = uint64(v)
				}
			} else {
				for _, e := range envs {
					v := rg.Uint64()
					if rg.Intn(3) == 0 {
						v = uint64(rg.Intn(5)) - 2
					}
					if w == 0 {
						e.v[t] = v & 1
					} else {
						e.v[t] = v & mask(w)
					}
				}
			}
			vars = append(vars, t)
			terms[w] = append(terms[w], t)
		}
		for i := 0; i < 3; i++ {
			for _, w := range widths {
				addVar(w)
			}
		}
		arrs := []*FArr{mkFVar("A", 8), mkFVar("B", 8)}
		lit := make([]uint64, 40)
		for i := range lit {
			lit[i] = uint64(rg.Intn(256))
		}
		arrs = append(arrs, mkFLit(lit, 8), mkFTab(lit, 4, 8), mkFConst(mkConst(uint64(rg.Intn(256)), 8)))
		small := func() *Term { // index-like
			for i := 0; i < 10; i++ {
				t := terms[64][rg.Intn(len(terms[64]))]
				if t.slo >= 0 && t.shi < 1<<20 {
					return t
				}
			}
			return k64(int64(rg.Intn(40)))
		}
		pick := func(w uint8) *Term {
			if rg.Intn(5) == 0 {
				if w == 0 {
					return mkBool(rg.Intn(2) == 0)
				}
				c := []uint64{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 64, 127, 128, 255, 256, 4096, ^uint64(0), ^uint64(1), 1 << 15, 1 << 63}[rg.Intn(20)]
				if rg.Intn(4) == 0 {
					c = uint64(rg.Intn(300)) - 100
				}
				return mkConst(c&mask(w), w)
			}
			return terms[w][rg.Intn(len(terms[w]))]
		}
		bad := func(what string, t *Term, args []*Term, e *env, want uint64) error {
			s := what + " built " + dumpTerm(t, 8)
			for _, a := range args {
				s += fmt.Sprintf("\n   arg %s = %#x", dumpTerm(a, 6), e.eval(a))
			}
			return fmt.Errorf("%s\n   value %#x, expected %#x, range u[%#x,%#x] s[%d,%d]", s, e.eval(t), want, t.ulo, t.uhi, t.slo, t.shi)
		}
		for step := 0; step < 150; step++ {
			var t *Term
			var args []*Term
			var what string
			var f func(v []uint64) uint64
			w := widths[1+rg.Intn(3)]
			if rg.Intn(2) == 0 {
				w = 64
			}
			bin := func(name string, op Op, mk func(a, b *Term) *Term) {
				a, b := pick(w), pick(w)
				if (op == OShl || op == OLshr || op == OAshr) && rg.Intn(2) == 0 {
					b = mkConst(uint64(rg.Intn(int(w)+2)), w)
				}
				if op == OUDiv || op == OURem || op == OSDiv || op == OSRem {
					d := []uint64{1, 2, 3, 5, 8, 16, 35, 39, 256, 512}[rg.Intn(10)] & mask(w)
					if d == 0 {
						d = 1
					}
					b = mkConst(d, w)
				}
				what, args, t = name, []*Term{a, b}, mk(a, b)
				f = func(v []uint64) uint64 { return evalBin(op, v[0], v[1], w) }
			}
			switch rg.Intn(30) {
			case 0, 1, 2:
				a, b := pick(w), pick(w)
				what, args, t = "add", []*Term{a, b}, mkAdd(a, b)
				f = func(v []uint64) uint64 { return v[0] + v[1] }
			case 3:
				a, b := pick(w), pick(w)
				what, args, t = "sub", []*Term{a, b}, mkSub(a, b)
				f = func(v []uint64) uint64 { return v[0] - v[1] }
			case 4, 5:
				a := pick(w)
				k := []uint64{2, 3, 5, 16, 32, 64, 256, 4096, ^uint64(0)}[rg.Intn(9)]
				what, args, t = "mulc", []*Term{a}, mkMulC(a, k)
				f = func(v []uint64) uint64 { return v[0] * k }
			case 6:
				bin("mul", OMul, mkMul)
			case 7:
				bin("udiv", OUDiv, mkUDiv)
			case 8:
				bin("urem", OURem, mkURem)
			case 9:
				bin("sdiv", OSDiv, mkSDiv)
			case 10:
				bin("srem", OSRem, mkSRem)
			case 11:
				bin("shl", OShl, mkShl)
			case 12:
				bin("lshr", OLshr, mkLshr)
			case 13:
				bin("ashr", OAshr, mkAshr)
			case 14, 15:
				bin("band", OBAnd, mkBAnd)
			case 16:
				bin("bor", OBOr, mkBOr)
			case 17:
				bin("bxor", OBXor, mkBXor)
			case 18, 19:
				a := pick(64)
				lo := uint64(rg.Intn(7) * 8)
				if rg.Intn(3) == 0 {
					lo = 0
				}
				nw := widths[1+rg.Intn(2)]
				what, args, t = "extract", []*Term{a}, mkExtract(a, lo, nw)
				f = func(v []uint64) uint64 { return v[0] >> lo }
			case 20, 21:
				a := pick(widths[1+rg.Intn(2)])
				what, args, t = "zext", []*Term{a}, mkZExt(a, 64)
				f = func(v []uint64) uint64 { return v[0] }
			case 22:
				a := pick(widths[1+rg.Intn(2)])
				what, args, t = "sext", []*Term{a}, mkSExt(a, 64)
				f = func(v []uint64) uint64 { return uint64(sext64(v[0], a.w)) }
			case 23:
				a, b := pick(w), pick(w)
				what, args, t = "eq", []*Term{a, b}, mkEq(a, b)
				f = func(v []uint64) uint64 { return envs[0].b(v[0] == v[1]) }
			case 24:
				a, b := pick(w), pick(w)
				what, args, t = "ult", []*Term{a, b}, mkUlt(a, b)
				f = func(v []uint64) uint64 { return envs[0].b(v[0] < v[1]) }
			case 25:
				a, b := pick(w), pick(w)
				what, args, t = "slt", []*Term{a, b}, mkSlt(a, b)
				f = func(v []uint64) uint64 { return envs[0].b(sext64(v[0], w) < sext64(v[1], w)) }
			case 26:
				c, a, b := pick(0), pick(w), pick(w)
				what, args, t = "ite", []*Term{c, a, b}, mkIte(c, a, b)
				f = func(v []uint64) uint64 {
					if v[0] == 1 {
						return v[1]
					}
					return v[2]
				}
			case 27:
				a, b, c := pick(0), pick(0), pick(0)
				switch rg.Intn(4) {
				case 0:
					what, args, t = "and", []*Term{a, b, c}, mkAnd(a, b, c)
					f = func(v []uint64) uint64 { return v[0] & v[1] & v[2] }
				case 1:
					what, args, t = "or", []*Term{a, b, c}, mkOr(a, b, c)
					f = func(v []uint64) uint64 { return v[0] | v[1] | v[2] }
				case 2:
					what, args, t = "iff", []*Term{a, b}, mkIff(a, b)
					f = func(v []uint64) uint64 { return envs[0].b(v[0] == v[1]) }
				default:
					what, args, t = "not", []*Term{a}, mkNot(a)
					f = func(v []uint64) uint64 { return 1 - v[0] }
				}
			case 28: // grow arrays
				A := arrs[rg.Intn(len(arrs))]
				B := arrs[rg.Intn(len(arrs))]
				var n *FArr
				switch rg.Intn(4) {
				case 0:
					n = mkFStore(A, small(), pick(8))
				case 1, 2:
					n = mkFCopy(A, small(), small(), B, small())
				default:
					n = mkFIte(pick(0), A, B)
				}
				arrs = append(arrs, n)
				continue
			default:
				A := arrs[rg.Intn(len(arrs))]
				i := small()
				what, args, t = "sel", []*Term{i}, sel(A, i)
				for _, e := range envs {
					want := e.sel(A, e.eval(i)) & 0xff
					if e.eval(t) != want {
						return checked, bad(what, t, args, e, want)
					}
				}
				f = nil
			}
			for _, e := range envs {
				var v []uint64
				for _, a := range args {
					v = append(v, e.eval(a))
				}
				got := e.eval(t)
				if f != nil {
					want := f(v)
					if t.w == 0 {
						want &= 1
					} else {
						want &= mask(t.w)
					}
					if got != want {
						return checked, bad(what, t, args, e, want)
					}
				}
				if t.w > 0 {
					sv := sext64(got, t.w)
					if got < t.ulo || got > t.uhi || sv < t.slo || sv > t.shi {
						return checked, bad(what+" (interval)", t, args, e, got)
					}
				}
				checked++
			}
			if termSize(t, 400) < 400 {
				terms[t.w] = append(terms[t.w], t)
			}
		}
		// what is concluded from path conditions
		for _, e := range envs {
			st := &State{pc: &PC{}}
			var conds []*Term
			cmp := func() *Term {
				w := widths[1+rg.Intn(3)]
				a, b := pick(w), pick(w)
				if rg.Intn(2) == 0 { // near its value
					b = mkConst((e.eval(a)+uint64(rg.Intn(3))-1)&mask(w), w)
				}
				if w < 64 && rg.Intn(2) == 0 {
					a, b = mkZExt(a, 64), mkZExt(b, 64)
				}
				switch rg.Intn(4) {
				case 0:
					return mkEq(a, b)
				case 1:
					return mkUlt(a, b)
				case 2:
					return mkSle(a, b)
				}
				return mkSlt(a, b)
			}
			boolean := func() *Term {
				switch rg.Intn(8) {
				case 0:
					return pick(0)
				case 1:
					return mkOr(cmp(), cmp(), pick(0))
				case 2:
					return mkAnd(cmp(), cmp())
				}
				return cmp()
			}
			ok := func(what string, holds bool, t *Term) error {
				checked++
				if holds {
					return nil
				}
				s := what + ": " + dumpTerm(t, 8) + fmt.Sprintf(" = %#x", e.eval(t))
				for _, c := range conds {
					s += "\n   under " + dumpTerm(c, 8)
				}
				for t, x := range st.pc.gather().m {
					s += fmt.Sprintf("\n   fact %s in [%d,%d] is %d", dumpTerm(t, 8), x.lo, x.hi, sext64(e.eval(t), t.w))
				}
				return fmt.Errorf("%s", s)
			}
			for k := 0; k < 12; k++ {
				c := boolean()
				if e.eval(c) == 0 {
					c = mkNot(c)
				}
				conds = append(conds, c)
				if rg.Intn(6) == 0 {
					st.note(c)
				} else {
					st.assume(c)
				}
				f := st.pc.gather()
				for j := 0; j < 12; j++ {
					g := boolean()
					v := e.eval(g) == 1
					if d := f.decide3(g, 8); d != 0 {
						rl, rh := int64(0), int64(0)
						if (d == 1) != v && len(g.a) > 0 {
							rl, rh = f.rng(g.a[0], 8)
						}
						if err := ok(fmt.Sprintf("decided %d wrongly (range [%d,%d])", d, rl, rh), (d == 1) == v, g); err != nil {
							return checked, err
						}
					}
					if err := ok("wrong under literals", (e.eval(underLits(conds, g)) == 1) == v, g); err != nil {
						return checked, err
					}
				}
				for j := 0; j < 12; j++ {
					w := widths[1+rg.Intn(3)]
					t := pick(w)
					lo, hi := f.rng(t, 6)
					v := e.eval(t)
					sv := sext64(v, w)
					if err := ok(fmt.Sprintf("range [%d,%d]", lo, hi), lo <= sv && sv <= hi, t); err != nil {
						return checked, err
					}
					if w < 64 {
						lo, hi = f.rngU(t, 6)
						if err := ok(fmt.Sprintf("unsigned range [%d,%d]", lo, hi), lo <= int64(v) && int64(v) <= hi, t); err != nil {
							return checked, err
						}
					}
				}
			}
		}
	}
	return checked, nil
}
