package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- path conditions

type fact struct {
	t      *Term
	lo, hi int64
}

type PC struct {
	parent *PC
	cond   *Term
	depth  int
	facts  []fact
	all    *invT // holds for all values of its variable
}

func (p *PC) conds() []*Term {
	var r []*Term
	for ; p != nil; p = p.parent {
		if p.cond != nil && !p.cond.isTrue() {
			r = append(r, p.cond)
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (p *PC) term() *Term { return mkAnd(p.conds()...) }

type Facts struct {
	m    map[*Term]fact
	lits map[*Term]bool
}

var gatherCache = map[*PC]*Facts{}

// gather collects the facts known on a path (cached for recent paths).
func (p *PC) gather() *Facts {
	if f, ok := gatherCache[p]; ok {
		return f
	}
	f := p.gather0()
	if len(gatherCache) > 96 {
		gatherCache = map[*PC]*Facts{}
	}
	gatherCache[p] = f
	return f
}

func (p *PC) gather0() *Facts {
	f := &Facts{m: map[*Term]fact{}, lits: map[*Term]bool{}}
	for ; p != nil; p = p.parent {
		for _, x := range p.facts {
			if o, ok := f.m[x.t]; ok {
				f.m[x.t] = fact{x.t, maxS(o.lo, x.lo), minS(o.hi, x.hi)}
			} else {
				f.m[x.t] = x
			}
		}
		if p.cond != nil {
			if p.cond.op == OAnd {
				for _, c := range p.cond.a {
					f.lits[c] = true
				}
			}
			f.lits[p.cond] = true
		}
	}
	return f
}

// linPart splits an exact linear term into (part, sign, const): t = sign*part + const.
func linPart(t *Term) (part *Term, sign int64, c int64) {
	if t.op != OLin {
		return t, 1, 0
	}
	c = sext64(t.v, t.w)
	p := mkLin(lin{0, t.a, t.co}, t.w)
	if p.op == OLin && sext64(p.co[0], p.w) < 0 {
		return mkNeg(p), -1, c
	}
	if p.op == OLin && len(p.a) == 1 && p.v == 0 {
		// coefficient != 1: keep
		return p, 1, c
	}
	return p, 1, c
}

func (f *Facts) iv(t *Term) (int64, int64, uint64, uint64) {
	lo, hi := f.rng(t, 6)
	return lo, hi, t.ulo, t.uhi
}

func (f *Facts) rng(t *Term, depth int) (int64, int64) {
	lo, hi := t.slo, t.shi
	if t.isConst() || t.w == 0 {
		return lo, hi
	}
	if len(f.m) == 0 {
		return lo, hi
	}
	if x, ok := f.m[t]; ok {
		lo, hi = maxS(lo, x.lo), minS(hi, x.hi)
	}
	if depth == 0 {
		return lo, hi
	}
	switch t.op {
	case OLin:
		if linExactS(t) {
			p, s, c := linPart(t)
			if p != t && t.w < 64 && p.op == OLin && !linExactS(p) {
				break
			}
			if p != t {
				pl, ph := f.rngAtoms(p, depth-1)
				var a, b int64
				if s > 0 {
					a, b = satAdd(pl, c), satAdd(ph, c)
				} else {
					a, b = satAdd(-ph, c), satAdd(-pl, c)
				}
				if pl > -(1<<61) && ph < (1<<61) {
					lo, hi = maxS(lo, a), minS(hi, b)
				}
			} else {
				pl, ph := f.rngAtoms(t, depth-1)
				lo, hi = maxS(lo, pl), minS(hi, ph)
			}
		}
	case OZExt:
		l, h := f.rngU(t.a[0], depth-1)
		lo, hi = maxS(lo, l), minS(hi, h)
	case OIte:
		d := f.decide3(t.a[0], depth-1)
		if d == 1 {
			l, h := f.rng(t.a[1], depth-1)
			return maxS(lo, l), minS(hi, h)
		}
		if d == -1 {
			l, h := f.rng(t.a[2], depth-1)
			return maxS(lo, l), minS(hi, h)
		}
		l1, h1 := f.rng(t.a[1], depth-1)
		l2, h2 := f.rng(t.a[2], depth-1)
		lo, hi = maxS(lo, minS(l1, l2)), minS(hi, maxS(h1, h2))
	}
	return lo, hi
}

func (f *Facts) rngU(t *Term, depth int) (int64, int64) {
	lo, hi := int64(t.ulo), int64(t.uhi)
	if t.uhi > 1<<62 {
		return 0, 1<<63 - 1
	}
	if x, ok := f.m[t]; ok && x.lo >= 0 {
		lo, hi = maxS(lo, x.lo), minS(hi, x.hi)
	} else if ok && x.hi < 0 && t.w < 62 {
		lo, hi = maxS(lo, x.lo+1<<t.w), minS(hi, x.hi+1<<t.w)
	}
	return lo, hi
}

func satAdd(a, b int64) int64 {
	c := i128of(a).add(i128of(b))
	if c.fitsI64() {
		return int64(c.lo)
	}
	if c.hi < 0 {
		return -1 << 63
	}
	return 1<<63 - 1
}

func (f *Facts) rngAtoms(t *Term, depth int) (int64, int64) {
	lo, hi := t.slo, t.shi
	if x, ok := f.m[t]; ok {
		lo, hi = maxS(lo, x.lo), minS(hi, x.hi)
	}
	if t.op == OLin {
		l, h := linRange(t.w, t.v, t.a, t.co, func(a *Term) (int64, int64, uint64, uint64) {
			x, y := f.rng(a, depth)
			return x, y, a.ulo, a.uhi
		})
		if l.fitsI64() && h.fitsI64() {
			lo, hi = maxS(lo, int64(l.lo)), minS(hi, int64(h.lo))
		}
	} else {
		l, h := f.rng(t, depth)
		lo, hi = maxS(lo, l), minS(hi, h)
	}
	return lo, hi
}

// decide3: 1 true, -1 false, 0 unknown, under the facts.
func (f *Facts) decide3(c *Term, depth int) int {
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return -1
	}
	if f.lits[c] {
		return 1
	}
	if n := negated(c); n != nil && f.lits[n] {
		return -1
	}
	if depth <= 0 {
		return 0
	}
	switch c.op {
	case ONot:
		return -f.decide3(c.a[0], depth)
	case OAnd:
		all := true
		for _, x := range c.a {
			d := f.decide3(x, depth-1)
			if d == -1 {
				return -1
			}
			if d != 1 {
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		all := true
		for _, x := range c.a {
			d := f.decide3(x, depth-1)
			if d == 1 {
				return 1
			}
			if d != -1 {
				all = false
			}
		}
		if all {
			return -1
		}
	case OIte:
		switch f.decide3(c.a[0], depth-1) {
		case 1:
			return f.decide3(c.a[1], depth-1)
		case -1:
			return f.decide3(c.a[2], depth-1)
		}
		x, y := f.decide3(c.a[1], depth-1), f.decide3(c.a[2], depth-1)
		if x == y {
			return x
		}
	case OLt0:
		lo, hi := f.rng(c.a[0], depth)
		if hi < 0 {
			return 1
		}
		if lo >= 0 {
			return -1
		}
	case OEq0:
		if p, v, ok := eqConst(c.a[0]); ok {
			lo, hi := f.rng(p, depth)
			if lo == v && hi == v {
				return 1
			}
			if v < lo || v > hi {
				return -1
			}
		}
		lo, hi := f.rng(c.a[0], depth)
		if lo == 0 && hi == 0 {
			return 1
		}
		if lo > 0 || hi < 0 {
			return -1
		}
	case OSlt:
		l1, h1 := f.rng(c.a[0], depth)
		l2, h2 := f.rng(c.a[1], depth)
		if h1 < l2 {
			return 1
		}
		if l1 >= h2 {
			return -1
		}
	}
	return 0
}

// eqConst recognises d = p - v (or v - p) with v constant, in which case
// d == 0 exactly when p == v, whether or not the subtraction overflows.
func eqConst(d *Term) (*Term, int64, bool) {
	if d.op != OLin || len(d.a) != 1 {
		return nil, 0, false
	}
	switch sext64(d.co[0], d.w) {
	case 1:
		return d.a[0], sext64(-d.v, d.w), true
	case -1:
		return d.a[0], sext64(d.v, d.w), true
	}
	return nil, 0, false
}

func deriveFacts(c *Term, f *Facts, out *[]fact) {
	add := func(t *Term, lo, hi int64) {
		*out = append(*out, fact{t, lo, hi})
		// propagate through zero extension
		if t.op == OZExt {
			b := t.a[0]
			l, h := maxS(0, lo), minS(hi, int64(b.uhi))
			if half := int64(1) << (b.w - 1); h < half {
				*out = append(*out, fact{b, l, h})
			} else if l >= half { // facts are about signed values
				*out = append(*out, fact{b, l - 2*half, h - 2*half})
			}
		}
	}
	addLin := func(d *Term, lo, hi int64) { // lo <= d <= hi
		if d.op == OLin && !linExactS(d) {
			return
		}
		p, s, k := linPart(d)
		if p != d && d.w < 64 && p.op == OLin && !linExactS(p) {
			return
		}
		l, h := satAdd(lo, -k), satAdd(hi, -k)
		if s < 0 {
			l, h = satAdd(0, negSat(h)), negSat(l)
		}
		if p.op == OLin && len(p.a) == 1 && p.v == 0 {
			co := sext64(p.co[0], p.w)
			if co > 1 {
				if l > -(1 << 62) {
					l = -floorDiv(-l, co)
				}
				if h < 1<<62 {
					h = floorDiv(h, co)
				}
				p = p.a[0]
			}
		}
		add(p, l, h)
	}
	neg := false
	if c.op == ONot {
		neg = true
		c = c.a[0]
	}
	switch c.op {
	case OAnd:
		if !neg {
			for _, x := range c.a {
				deriveFacts(x, f, out)
			}
		}
	case OOr:
		if neg {
			for _, x := range c.a {
				deriveFacts(mkNot(x), f, out)
			}
		}
	case OLt0:
		if neg {
			addLin(c.a[0], 0, 1<<63-1)
		} else {
			addLin(c.a[0], -1<<63, -1)
		}
	case OEq0:
		d := c.a[0]
		if p, v, ok := eqConst(d); ok {
			if !neg {
				add(p, v, v)
				break
			}
			if lo, hi := f.rng(p, 4); lo == v {
				add(p, lo+1, hi)
				break
			} else if hi == v {
				add(p, lo, hi-1)
				break
			}
		}
		if !neg {
			if d.w == 64 || d.op == OLin || true {
				addLin(d, 0, 0)
			}
		} else {
			// d != 0: shrink at the edges
			lo, hi := f.rng(d, 4)
			if lo == 0 {
				addLin(d, 1, 1<<63-1)
			} else if hi == 0 {
				addLin(d, -1<<63, -1)
			}
		}
	case OSlt:
		a, b := c.a[0], c.a[1]
		if neg {
			a, b = b, a // b <= a originally: !(a<b) -> b<=a
			_, hb := f.rng(b, 3)
			la, _ := f.rng(a, 3)
			add(a, -1<<63, hb)
			add(b, la, 1<<63-1)
		} else {
			_, hb := f.rng(b, 3)
			la, _ := f.rng(a, 3)
			if hb > -1<<63 {
				add(a, -1<<63, hb-1)
			}
			if la < 1<<63-1 {
				add(b, la+1, 1<<63-1)
			}
		}
	}
}

func negSat(x int64) int64 {
	if x == -1<<63 {
		return 1<<63 - 1
	}
	return -x
}

// ---- state

type State struct {
	pc   *PC
	mem  pmap
	regs []Value
	fn   *FnInfo
	// effects on the outside world, in order
	fx *Effects
}

func (s *State) clone() *State {
	n := *s
	n.regs = append([]Value(nil), s.regs...)
	return &n
}

func (s *State) assume(c *Term) *State {
	if c.isTrue() {
		return s
	}
	f := s.pc.gather()
	p := &PC{parent: s.pc, cond: c, depth: s.pc.depth + 1}
	deriveFacts(c, f, &p.facts)
	s.pc = p
	return s
}

// note records interval facts known to hold (proved or assumed) without making them path conditions.
func (s *State) note(c *Term) {
	if c.isConst() {
		return
	}
	f := s.pc.gather()
	p := &PC{parent: s.pc, cond: tTrue, depth: s.pc.depth + 1}
	deriveFacts(c, f, &p.facts)
	if len(p.facts) > 0 {
		s.pc = p
	}
}

func (s *State) decide(c *Term) *Term {
	if c.isConst() {
		return c
	}
	switch s.pc.gather().decide3(c, 8) {
	case 1:
		return tTrue
	case -1:
		return tFalse
	}
	return c
}

func (s *State) ostate(o *Obj) *ObjState {
	v := s.mem.get(o.id)
	if v == nil {
		return &ObjState{leaves: map[string]Leaf{}}
	}
	return v.(*ObjState)
}

func (s *State) readable(o *Obj) *ObjState {
	st := s.ostate(o)
	if st.tainted != "" {
		unsup("read of %s after aliasing was lost: %s", o.name, st.tainted)
	}
	return st
}

func (s *State) writable(x *Exec, o *Obj) *ObjState {
	st := s.readable(o)
	if st.frozen {
		unsup("write to %s after a by-value snapshot of it was stored", o.name)
	}
	if x.track != nil {
		x.track.writes[o] = true
	}
	if o.group != nil && len(o.group.members) > 1 {
		for m := range o.group.members {
			if m == o {
				continue
			}
			ms := s.ostate(m)
			if ms.tainted == "" {
				ms = ms.clone()
				ms.tainted = "write through alias " + o.name
				s.mem = s.mem.set(m.id, ms)
			}
		}
	}
	st = st.clone()
	s.mem = s.mem.set(o.id, st)
	return st
}

func (x *Exec) newObj(name string, t types.Type, isArr bool) *Obj {
	x.nobj++
	o := &Obj{id: x.nobj, name: fmt.Sprintf("%s#%d", name, x.nobj), typ: t, isArr: isArr}
	x.objs = append(x.objs, o)
	return o
}

func joinGroup(a, b *Obj) {
	if a == b || a == nil || b == nil {
		return
	}
	if a.group != nil && a.group == b.group {
		return
	}
	if a.group == nil {
		a.group = &aliasGroup{members: map[*Obj]bool{a: true}}
	}
	if b.group == nil {
		b.group = &aliasGroup{members: map[*Obj]bool{b: true}}
	}
	if len(a.group.members) < len(b.group.members) {
		a, b = b, a
	}
	g := a.group
	for m := range b.group.members {
		g.members[m] = true
		m.group = g
	}
}

func isDimmed(o *Obj, path string) bool {
	return o.isArr || o.isMap || strings.Contains(path, "[]") || strings.Contains(path, "#e")
}

func zeroTerm(w uint8) *Term { return mkConst(0, w) }

func (s *State) leafArr(st *ObjState, path string, w uint8) *FArr {
	if l, ok := st.leaves[path]; ok && l.arr != nil {
		return l.arr
	}
	return mkFConst(zeroTerm(w))
}

func zeroValue(t types.Type) Value {
	if w, ok := scalarWidth(t); ok {
		return zeroTerm(w)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			return &StrV{arr: mkFBytes(nil), off: k64(0), len: k64(0)}
		}
		if u.Kind() == types.UntypedNil {
			return &IfaceV{isnil: tTrue}
		}
		return &OpaqueV{"zero " + u.String()}
	case *types.Slice:
		return &SliceV{off: k64(0), len: k64(0), cap: k64(0), isnil: tTrue, path: "[]", et: u.Elem()}
	case *types.Pointer:
		return &PtrV{isnil: tTrue, idx: k64(0), et: u.Elem()}
	case *types.Interface:
		return &IfaceV{isnil: tTrue}
	case *types.Map:
		return &MapV{isnil: tTrue}
	case *types.Signature:
		return &FuncV{isnil: tTrue}
	case *types.Struct, *types.Array:
		a := &AggV{typ: t, leaves: map[string]AggLeaf{}}
		for _, l := range leavesOf(t, false) {
			if l.dim {
				if l.cells {
					continue
				}
				a.leaves[l.path] = AggLeaf{arr: mkFConst(zeroTerm(l.w)), off: k64(0)}
			} else {
				a.leaves[l.path] = AggLeaf{val: zeroValue(l.typ)}
			}
		}
		return a
	case *types.Chan:
		return &OpaqueV{"chan"}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, zeroValue(u.At(i).Type()))
		}
		return tv
	}
	unsup("zero value of %s", typeStr(t))
	return nil
}

// loadAt reads a value of type t at (obj,path,idx).
func (s *State) loadAt(x *Exec, o *Obj, path string, idx *Term, t types.Type) Value {
	st := s.readable(o)
	dim := isDimmed(o, path)
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		a := &AggV{typ: t, leaves: map[string]AggLeaf{}}
		for _, l := range leavesOf(t, false) {
			if l.dim {
				if l.cells {
					continue
				}
				off := k64(0)
				if dim {
					off = mkMulC(idx, uint64(l.size))
				}
				a.leaves[l.path] = AggLeaf{arr: s.leafArr(st, path+l.path, l.w), off: off}
			} else {
				a.leaves[l.path] = AggLeaf{val: s.loadAt(x, o, path+l.path, idx, l.typ)}
			}
		}
		return a
	}
	if !dim {
		if l, ok := st.leaves[path]; ok {
			return l.val
		}
		return zeroValue(t)
	}
	if w, ok := scalarWidth(t); ok {
		return sel(s.leafArr(st, path, w), idx)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			n := sel(s.leafArr(st, path+"#len", 64), idx)
			return &StrV{arr: s.leafArr(st, path+"#c", 8), off: mkMulC(idx, uint64(bigDim)), len: n}
		}
	case *types.Slice:
		n := sel(s.leafArr(st, path+"#len", 64), idx)
		isnil := sel(s.leafArr(st, path+"#nil", 0), idx)
		if _, ok := st.leaves[path+"#nil"]; !ok {
			isnil = tTrue
		}
		no := x.newObj("elem"+path, u.Elem(), true)
		no.whole = n
		ns := &ObjState{leaves: map[string]Leaf{}, frozen: true}
		for _, l := range leavesOf(u.Elem(), true) {
			src := s.leafArr(st, path+"#e"+l.path, l.w)
			off := mkMulC(idx, uint64(bigDim*l.size))
			ns.leaves["[]"+l.path] = Leaf{arr: shiftArr(src, off, l.w, mkMulC(n, uint64(l.size)))}
		}
		s.mem = s.mem.set(no.id, ns)
		return &SliceV{obj: no, path: "[]", off: k64(0), len: n, cap: n, isnil: isnil, et: u.Elem()}
	case *types.Pointer:
		isnil := sel(s.leafArr(st, path+"#nil", 0), idx)
		if _, ok := st.leaves[path+"#nil"]; !ok {
			isnil = tTrue
		}
		no := x.newObj("ptrelem"+path, u.Elem(), false)
		ns := &ObjState{leaves: map[string]Leaf{}, frozen: true}
		for _, l := range leavesOf(u.Elem(), false) {
			if l.dim {
				src := s.leafArr(st, path+"*"+l.path, l.w)
				ns.leaves[l.path] = Leaf{arr: shiftArr(src, mkMulC(idx, uint64(l.size)), l.w, k64(l.size))}
			} else {
				ns.leaves[l.path] = Leaf{val: s.loadAt(x, o, path+"*"+l.path, idx, l.typ)}
			}
		}
		s.mem = s.mem.set(no.id, ns)
		return &PtrV{obj: no, path: "", idx: k64(0), isnil: isnil, et: u.Elem()}
	case *types.Interface:
		if isErrorType(t) {
			isnil := sel(s.leafArr(st, path+"#nil", 0), idx)
			if _, ok := st.leaves[path+"#nil"]; !ok {
				isnil = tTrue
			}
			return &IfaceV{isnil: isnil, alts: []IfaceAlt{{cond: mkNot(isnil), typ: nil, val: &OpaqueV{"error from array"}}}}
		}
	}
	// cells
	if !idx.isConst() {
		unsup("symbolic index into array of %s", typeStr(t))
	}
	if l, ok := st.leaves[path]; ok && l.cells != nil {
		if v, ok := l.cells[int64(idx.v)]; ok {
			return v
		}
	}
	return zeroValue(t)
}

// shiftArr returns an array g with g[i] = f[off+i] for 0<=i<n.
func shiftArr(f *FArr, off *Term, w uint8, n *Term) *FArr {
	if off.isConst() && off.v == 0 {
		return f
	}
	if f.op == FConst {
		return f
	}
	return mkFCopy(mkFConst(zeroTerm(w)), k64(0), n, f, off)
}

func (s *State) storeAt(x *Exec, o *Obj, path string, idx *Term, t types.Type, v Value) {
	st := s.writable(x, o)
	s.storeInto(x, o, st, path, idx, t, v)
}

func (s *State) storeInto(x *Exec, o *Obj, st *ObjState, path string, idx *Term, t types.Type, v Value) {
	dim := isDimmed(o, path)
	if x.track != nil {
		x.track.note(o, path)
	}
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		a, ok := v.(*AggV)
		if !ok {
			unsup("store of %T as %s", v, typeStr(t))
		}
		for _, l := range leavesOf(t, false) {
			if l.cells {
				continue
			}
			al := a.leaves[l.path]
			if l.dim {
				p := path + l.path
				off := k64(0)
				if dim {
					off = mkMulC(idx, uint64(l.size))
				}
				src := al.arr
				if src == nil {
					src, al.off = mkFConst(zeroTerm(l.w)), k64(0)
				}
				cur := s.leafArr(st, p, l.w)
				if !dim && !strings.Contains(path, "[]") && al.off.isConst() && al.off.v == 0 {
					st.leaves[p] = Leaf{arr: src}
				} else {
					st.leaves[p] = Leaf{arr: mkFCopy(cur, off, k64(l.size), src, al.off)}
				}
				if x.track != nil {
					x.track.note(o, p)
				}
			} else {
				s.storeInto(x, o, st, path+l.path, idx, l.typ, al.val)
			}
		}
		return
	}
	if p, ok := v.(*PoisonV); ok {
		if !dim {
			st.leaves[path] = Leaf{val: p}
			return
		}
		unsup("use of %s", p.why)
	}
	if !dim {
		st.leaves[path] = Leaf{val: v}
		return
	}
	setT := func(p string, w uint8, val *Term) {
		if x.track != nil {
			x.track.note(o, p)
		}
		st.leaves[p] = Leaf{arr: mkFStore(s.leafArr(st, p, w), idx, val)}
	}
	copyT := func(p string, w uint8, off, n *Term, src *FArr, so *Term) {
		if x.track != nil {
			x.track.note(o, p)
		}
		st.leaves[p] = Leaf{arr: mkFCopy(s.leafArr(st, p, w), off, n, src, so)}
	}
	if w, ok := scalarWidth(t); ok {
		tv, ok := v.(*Term)
		if !ok {
			unsup("store of %T as %s", v, typeStr(t))
		}
		setT(path, w, tv)
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if isString(t) {
			sv := v.(*StrV)
			setT(path+"#len", 64, sv.len)
			copyT(path+"#c", 8, mkMulC(idx, uint64(bigDim)), sv.len, sv.arr, sv.off)
			return
		}
	case *types.Slice:
		sv := v.(*SliceV)
		setT(path+"#len", 64, sv.len)
		setT(path+"#nil", 0, sv.isnil)
		if sv.obj != nil {
			ost := s.readable(sv.obj)
			for _, l := range leavesOf(u.Elem(), true) {
				if l.cells {
					unsup("slice of %s stored in an array", typeStr(u.Elem()))
				}
				sz := uint64(l.size)
				copyT(path+"#e"+l.path, l.w, mkMulC(idx, uint64(bigDim)*sz), mkMulC(sv.len, sz), s.leafArr(ost, sv.path+l.path, l.w), mkMulC(sv.off, sz))
			}
			if !ost.frozen {
				c := ost.clone()
				c.frozen = true
				s.mem = s.mem.set(sv.obj.id, c)
			}
		}
		return
	case *types.Pointer:
		pv := v.(*PtrV)
		setT(path+"#nil", 0, pv.isnil)
		if pv.obj != nil {
			ost := s.readable(pv.obj)
			for _, l := range leavesOf(u.Elem(), false) {
				if l.cells {
					unsup("pointer to %s stored in an array", typeStr(u.Elem()))
				}
				pd := isDimmed(pv.obj, pv.path)
				if l.dim {
					so := k64(0)
					if pd {
						so = mkMulC(pv.idx, uint64(l.size))
					}
					copyT(path+"*"+l.path, l.w, mkMulC(idx, uint64(l.size)), k64(l.size), s.leafArr(ost, pv.path+l.path, l.w), so)
				} else {
					fv := s.loadAt(x, pv.obj, pv.path+l.path, pv.idx, l.typ)
					s.storeInto(x, o, st, path+"*"+l.path, idx, l.typ, fv)
				}
			}
			ost = s.readable(pv.obj)
			if !ost.frozen {
				c := ost.clone()
				c.frozen = true
				s.mem = s.mem.set(pv.obj.id, c)
			}
		}
		return
	case *types.Interface:
		if isErrorType(t) {
			iv := v.(*IfaceV)
			setT(path+"#nil", 0, iv.isnil)
			return
		}
	}
	if !idx.isConst() {
		unsup("symbolic index store into array of %s", typeStr(t))
	}
	l := st.leaves[path]
	nc := map[int64]Value{}
	for k, vv := range l.cells {
		nc[k] = vv
	}
	nc[int64(idx.v)] = v
	st.leaves[path] = Leaf{cells: nc}
}

// aggToObj materialises an aggregate in a scratch object.
func (s *State) aggToObj(x *Exec, a *AggV) *Obj {
	o := x.newObj("tmp", a.typ, false)
	st := &ObjState{leaves: map[string]Leaf{}}
	s.mem = s.mem.set(o.id, st)
	old := x.track
	x.track = nil
	s.storeInto(x, o, st, "", k64(0), a.typ, a)
	x.track = old
	return o
}

func (x *Exec) aggField(a *AggV, name string, t types.Type) Value {
	pre := "." + name
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		r := &AggV{typ: t, leaves: map[string]AggLeaf{}}
		for p, l := range a.leaves {
			if strings.HasPrefix(p, pre) {
				rest := p[len(pre):]
				if rest == "" || rest[0] == '.' || rest[0] == '[' {
					r.leaves[rest] = l
				}
			}
		}
		return r
	}
	l, ok := a.leaves[pre]
	if !ok {
		return zeroValue(t)
	}
	return l.val
}

// ---- merging

// mergeStates merges two states reaching the same point of the same frame.
func (x *Exec) mergeStates(a, b *State) *State {
	// common ancestor of path conditions
	pa, pb := a.pc, b.pc
	for pa.depth > pb.depth {
		pa = pa.parent
	}
	for pb.depth > pa.depth {
		pb = pb.parent
	}
	for pa != pb {
		pa, pb = pa.parent, pb.parent
	}
	anc := pa
	rest := func(p *PC) *Term {
		var cs []*Term
		for ; p != anc; p = p.parent {
			cs = append(cs, p.cond)
		}
		return mkAnd(cs...)
	}
	ra, rb := rest(a.pc), rest(b.pc)
	if ra.isFalse() {
		return b
	}
	if rb.isFalse() {
		return a
	}
	out := &State{fn: a.fn}
	c := mkOr(ra, rb)
	// condition selecting a
	sel := ra
	if termSize(rb, 64) < termSize(ra, 64) {
		sel = mkNot(rb)
	}
	out.pc = anc
	if !c.isTrue() {
		f := anc.gather()
		if f.decide3(c, 6) != 1 {
			p := &PC{parent: anc, cond: c, depth: anc.depth + 1}
			deriveFacts(c, f, &p.facts)
			p.facts = append(p.facts, hullFacts(a.pc, b.pc, anc)...)
			out.pc = p
		}
	} else {
		hf := hullFacts(a.pc, b.pc, anc)
		if len(hf) > 0 {
			out.pc = &PC{parent: anc, cond: tTrue, depth: anc.depth + 1, facts: hf}
		}
	}
	out.fx = x.mergeFx(sel, a.fx, b.fx)
	// memory
	out.mem = a.mem
	pdiff(a.mem.root, b.mem.root, pdepth-1, 0, func(k int, u, v interface{}) {
		if u == nil {
			out.mem = out.mem.set(k, v)
			return
		}
		if v == nil {
			return
		}
		out.mem = out.mem.set(k, x.mergeObj(sel, a, u.(*ObjState), b, v.(*ObjState), out))
	})
	// registers
	n := len(a.regs)
	out.regs = make([]Value, n)
	for i := 0; i < n; i++ {
		u, v := a.regs[i], b.regs[i]
		if u == nil || v == nil {
			continue
		}
		if u == v {
			out.regs[i] = u
			continue
		}
		out.regs[i] = x.mergeValue(sel, a, u, b, v, out)
	}
	return out
}

func hullFacts(a, b, anc *PC) []fact {
	collect := func(p *PC) map[*Term]fact {
		m := map[*Term]fact{}
		for n := 0; p != anc && n < 200; p, n = p.parent, n+1 {
			for _, x := range p.facts {
				if o, ok := m[x.t]; ok {
					m[x.t] = fact{x.t, maxS(o.lo, x.lo), minS(o.hi, x.hi)}
				} else {
					m[x.t] = x
				}
			}
		}
		return m
	}
	ma := collect(a)
	if len(ma) == 0 {
		return nil
	}
	mb := collect(b)
	var out []fact
	for t, f := range ma {
		if g, ok := mb[t]; ok {
			lo, hi := minS(f.lo, g.lo), maxS(f.hi, g.hi)
			if lo > t.slo || hi < t.shi {
				out = append(out, fact{t, lo, hi})
			}
		}
	}
	return out
}

func termSize(t *Term, lim int) int {
	if lim <= 0 {
		return 0
	}
	n := 1
	for _, a := range t.a {
		if n >= lim {
			return n
		}
		n += termSize(a, lim-n)
	}
	return n
}

func (x *Exec) mergeObj(c *Term, sa *State, a *ObjState, sb *State, b *ObjState, out *State) *ObjState {
	r := &ObjState{leaves: map[string]Leaf{}, frozen: a.frozen || b.frozen, appended: a.appended || b.appended}
	r.tainted = a.tainted
	if r.tainted == "" {
		r.tainted = b.tainted
	}
	if len(a.assoc) > 0 || len(b.assoc) > 0 {
		r.assoc = x.mergeAssoc(c, sa, a.assoc, sb, b.assoc, out)
	}
	for k, u := range a.leaves {
		v, ok := b.leaves[k]
		if !ok {
			v = x.missingLeaf(u)
		}
		r.leaves[k] = x.mergeLeaf(c, sa, u, sb, v, out)
	}
	for k, v := range b.leaves {
		if _, ok := a.leaves[k]; !ok {
			r.leaves[k] = x.mergeLeaf(c, sa, x.missingLeaf(v), sb, v, out)
		}
	}
	return r
}

// missingLeaf: a leaf never written holds the zero value.
func (x *Exec) missingLeaf(like Leaf) Leaf {
	if like.arr != nil {
		return Leaf{arr: mkFConst(zeroTerm(like.arr.w))}
	}
	if like.cells != nil {
		return Leaf{cells: map[int64]Value{}}
	}
	return Leaf{val: zeroLike(like.val)}
}

func zeroLike(v Value) Value {
	switch u := v.(type) {
	case *Term:
		return zeroTerm(u.w)
	case *StrV:
		return &StrV{arr: mkFBytes(nil), off: k64(0), len: k64(0)}
	case *SliceV:
		return zeroValue(types.NewSlice(u.et))
	case *PtrV:
		return &PtrV{isnil: tTrue, idx: k64(0), et: u.et}
	case *IfaceV:
		return &IfaceV{isnil: tTrue}
	case *MapV:
		return &MapV{isnil: tTrue}
	case *FuncV:
		return &FuncV{isnil: tTrue}
	}
	return &PoisonV{"zero of unknown"}
}

func (x *Exec) mergeLeaf(c *Term, sa *State, u Leaf, sb *State, v Leaf, out *State) Leaf {
	if u.arr != nil && v.arr != nil {
		return Leaf{arr: mkFIte(c, u.arr, v.arr)}
	}
	if u.cells != nil || v.cells != nil {
		nc := map[int64]Value{}
		for k, p := range u.cells {
			q, ok := v.cells[k]
			if !ok {
				q = zeroLike(p)
			}
			nc[k] = x.mergeValue(c, sa, p, sb, q, out)
		}
		for k, q := range v.cells {
			if _, ok := u.cells[k]; !ok {
				nc[k] = x.mergeValue(c, sa, zeroLike(q), sb, q, out)
			}
		}
		return Leaf{cells: nc}
	}
	if u.val == v.val {
		return u
	}
	return Leaf{val: x.mergeValue(c, sa, u.val, sb, v.val, out)}
}

// mergeValue builds ite(c, u, v).
func (x *Exec) mergeValue(c *Term, sa *State, u Value, sb *State, v Value, out *State) Value {
	if u == v {
		return u
	}
	if c.isTrue() {
		return u
	}
	if c.isFalse() {
		return v
	}
	if p, ok := u.(*PoisonV); ok {
		return p
	}
	if p, ok := v.(*PoisonV); ok {
		return p
	}
	switch a := u.(type) {
	case *Term:
		b, ok := v.(*Term)
		if !ok || a.w != b.w {
			return &PoisonV{"merge of different kinds"}
		}
		return mkIte(c, a, b)
	case *StrV:
		b, ok := v.(*StrV)
		if !ok {
			return &PoisonV{"merge of different kinds"}
		}
		return mergeStr(c, a, b)
	case *SliceV:
		b, ok := v.(*SliceV)
		if !ok {
			return &PoisonV{"merge of different kinds"}
		}
		return x.mergeSlice(c, sa, a, sb, b, out)
	case *PtrV:
		b, ok := v.(*PtrV)
		if !ok {
			return &PoisonV{"merge of different kinds"}
		}
		isnil := mkIte(c, a.isnil, b.isnil)
		if a.obj == nil && b.obj == nil {
			return &PtrV{isnil: isnil, idx: k64(0), et: a.et}
		}
		if a.obj == nil {
			r := *b
			r.isnil = isnil
			return &r
		}
		if b.obj == nil {
			r := *a
			r.isnil = isnil
			return &r
		}
		if a.obj == b.obj && a.path == b.path {
			return &PtrV{obj: a.obj, path: a.path, idx: mkIte(c, a.idx, b.idx), isnil: isnil, et: a.et}
		}
		// by value, if both are frozen snapshots
		if out != nil {
			oa, ob := sa.ostate(a.obj), sb.ostate(b.obj)
			if oa.frozen && ob.frozen && oa.tainted == "" && ob.tainted == "" {
				va := sa.loadAt(x, a.obj, a.path, a.idx, a.et)
				vb := sb.loadAt(x, b.obj, b.path, b.idx, b.et)
				mv := x.mergeValue(c, sa, va, sb, vb, out)
				if ag, ok := mv.(*AggV); ok {
					o := out.aggToObj(x, ag)
					os := out.ostate(o).clone()
					os.frozen = true
					out.mem = out.mem.set(o.id, os)
					return &PtrV{obj: o, path: "", idx: k64(0), isnil: isnil, et: a.et}
				}
			}
		}
		return &PoisonV{"merge of pointers to different objects " + a.obj.name + " and " + b.obj.name}
	case *AggV:
		b, ok := v.(*AggV)
		if !ok {
			return &PoisonV{"merge of different kinds"}
		}
		r := &AggV{typ: a.typ, leaves: map[string]AggLeaf{}}
		for k, l := range a.leaves {
			m, ok := b.leaves[k]
			if !ok {
				return &PoisonV{"merge of aggregates with different leaves"}
			}
			if l.arr != nil {
				if l.off == m.off {
					r.leaves[k] = AggLeaf{arr: mkFIte(c, l.arr, m.arr), off: l.off}
				} else {
					n := k64(aggLeafSize(a.typ, k))
					la := shiftArr(l.arr, l.off, l.arr.w, n)
					ma := shiftArr(m.arr, m.off, m.arr.w, n)
					r.leaves[k] = AggLeaf{arr: mkFIte(c, la, ma), off: k64(0)}
				}
			} else {
				r.leaves[k] = AggLeaf{val: x.mergeValue(c, sa, l.val, sb, m.val, out)}
			}
		}
		return r
	case *IfaceV:
		b, ok := v.(*IfaceV)
		if !ok {
			return &PoisonV{"merge of different kinds"}
		}
		r := &IfaceV{isnil: mkIte(c, a.isnil, b.isnil)}
		nc := mkNot(c)
		used := make([]bool, len(b.alts))
		for _, p := range a.alts {
			merged := false
			for j, q := range b.alts {
				if used[j] || !sameType(p.typ, q.typ) {
					continue
				}
				if p.val == q.val {
					used[j] = true
					r.alts = append(r.alts, IfaceAlt{mkIte(c, p.cond, q.cond), p.typ, p.val})
					merged = true
					break
				}
				if p.typ == nil {
					if p.val.(*OpaqueV).what == "error" && q.val.(*OpaqueV).what == "error" {
						used[j] = true
						r.alts = append(r.alts, IfaceAlt{mkIte(c, p.cond, q.cond), nil, p.val})
						merged = true
						break
					}
					continue
				}
				mv := x.mergeValue(c, sa, p.val, sb, q.val, out)
				if _, bad := mv.(*PoisonV); !bad {
					used[j] = true
					r.alts = append(r.alts, IfaceAlt{mkIte(c, p.cond, q.cond), p.typ, mv})
					merged = true
					break
				}
			}
			if !merged {
				r.alts = append(r.alts, IfaceAlt{mkAnd(c, p.cond), p.typ, p.val})
			}
		}
		for j, q := range b.alts {
			if !used[j] {
				r.alts = append(r.alts, IfaceAlt{mkAnd(nc, q.cond), q.typ, q.val})
			}
		}
		var keep []IfaceAlt
		for _, al := range r.alts {
			if !al.cond.isFalse() {
				keep = append(keep, al)
			}
		}
		r.alts = keep
		return r
	case *MapV:
		b, ok := v.(*MapV)
		if ok {
			isnil := mkIte(c, a.isnil, b.isnil)
			if a.obj == b.obj {
				return &MapV{obj: a.obj, isnil: isnil}
			}
			if a.obj == nil {
				return &MapV{obj: b.obj, isnil: isnil}
			}
			if b.obj == nil {
				return &MapV{obj: a.obj, isnil: isnil}
			}
		}
		return &PoisonV{"merge of different maps"}
	case *FuncV:
		b, ok := v.(*FuncV)
		if ok && a.fn == b.fn && len(a.binds) == 0 {
			return a
		}
		return &PoisonV{"merge of different functions"}
	case *TupleV:
		b := v.(*TupleV)
		r := &TupleV{}
		for i := range a.v {
			r.v = append(r.v, x.mergeValue(c, sa, a.v[i], sb, b.v[i], out))
		}
		return r
	case *OpaqueV:
		return a
	}
	return &PoisonV{fmt.Sprintf("merge of %T", u)}
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return types.Identical(a, b)
}

func aggLeafSize(t types.Type, path string) int64 {
	for _, l := range leavesOf(t, false) {
		if l.path == path {
			return l.size
		}
	}
	return 1
}

func mergeStr(c *Term, a, b *StrV) *StrV {
	n := mkIte(c, a.len, b.len)
	if a.arr == b.arr {
		return &StrV{arr: a.arr, off: mkIte(c, a.off, b.off), len: n}
	}
	if a.off == b.off {
		return &StrV{arr: mkFIte(c, a.arr, b.arr), off: a.off, len: n}
	}
	x := shiftArr(a.arr, a.off, 8, a.len)
	y := shiftArr(b.arr, b.off, 8, b.len)
	return &StrV{arr: mkFIte(c, x, y), off: k64(0), len: n}
}

func (x *Exec) mergeSlice(c *Term, sa *State, a *SliceV, sb *State, b *SliceV, out *State) Value {
	isnil := mkIte(c, a.isnil, b.isnil)
	n := mkIte(c, a.len, b.len)
	if a.obj == nil && b.obj == nil {
		return &SliceV{off: k64(0), len: n, cap: mkIte(c, a.cap, b.cap), isnil: isnil, path: "[]", et: a.et}
	}
	if a.obj == nil {
		return &SliceV{obj: b.obj, path: b.path, off: b.off, len: n, cap: mkIte(c, k64(0), b.cap), isnil: isnil, et: b.et}
	}
	if b.obj == nil {
		return &SliceV{obj: a.obj, path: a.path, off: a.off, len: n, cap: mkIte(c, a.cap, k64(0)), isnil: isnil, et: a.et}
	}
	if a.obj == b.obj && a.path == b.path {
		return &SliceV{obj: a.obj, path: a.path, off: mkIte(c, a.off, b.off), len: n, cap: mkIte(c, a.cap, b.cap), isnil: isnil, et: a.et}
	}
	if out == nil {
		return &PoisonV{"merge of slices of different objects"}
	}
	// A zero-length side contributes nothing: keep the other object.
	if a.len.isConst() && a.len.v == 0 && a.cap.isConst() && a.cap.v == 0 {
		return &SliceV{obj: b.obj, path: b.path, off: b.off, len: n, cap: mkIte(c, k64(0), b.cap), isnil: isnil, et: b.et}
	}
	if b.len.isConst() && b.len.v == 0 && b.cap.isConst() && b.cap.v == 0 {
		return &SliceV{obj: a.obj, path: a.path, off: a.off, len: n, cap: mkIte(c, a.cap, k64(0)), isnil: isnil, et: a.et}
	}
	oa, ob := sa.ostate(a.obj), sb.ostate(b.obj)
	if oa.tainted != "" || ob.tainted != "" {
		return &PoisonV{"merge of tainted slices"}
	}
	no := x.newObj("phi", a.et, true)
	ns := &ObjState{leaves: map[string]Leaf{}}
	ns.frozen = oa.frozen || ob.frozen
	for _, l := range leavesOf(a.et, true) {
		if l.cells {
			return x.mergeCellSlices(c, sa, a, sb, b, out)
		}
		sz := uint64(l.size)
		fa := shiftArr(sa.leafArr(oa, a.path+l.path, l.w), mkMulC(a.off, sz), l.w, mkMulC(a.len, sz))
		fb := shiftArr(sb.leafArr(ob, b.path+l.path, l.w), mkMulC(b.off, sz), l.w, mkMulC(b.len, sz))
		ns.leaves["[]"+l.path] = Leaf{arr: mkFIte(c, fa, fb)}
	}
	ns.appended = oa.appended || ob.appended
	no.whole = n
	out.mem = out.mem.set(no.id, ns)
	joinGroup(no, a.obj)
	joinGroup(no, b.obj)
	return &SliceV{obj: no, path: "[]", off: k64(0), len: n, cap: n, isnil: isnil, et: a.et}
}

func (x *Exec) mergeCellSlices(c *Term, sa *State, a *SliceV, sb *State, b *SliceV, out *State) Value {
	if !(a.len.isConst() && b.len.isConst() && a.off.isConst() && b.off.isConst()) {
		return &PoisonV{"merge of slices of interfaces"}
	}
	no := x.newObj("phi", a.et, true)
	ns := &ObjState{leaves: map[string]Leaf{}}
	cells := map[int64]Value{}
	n := int64(maxU(a.len.v, b.len.v))
	for i := int64(0); i < n; i++ {
		var u, v Value
		if i < int64(a.len.v) {
			u = sa.loadAt(x, a.obj, a.path, k64(int64(a.off.v)+i), a.et)
		}
		if i < int64(b.len.v) {
			v = sb.loadAt(x, b.obj, b.path, k64(int64(b.off.v)+i), b.et)
		}
		if u == nil {
			u = zeroLike(v)
		}
		if v == nil {
			v = zeroLike(u)
		}
		cells[i] = x.mergeValue(c, sa, u, sb, v, out)
	}
	ns.leaves["[]"] = Leaf{cells: cells}
	out.mem = out.mem.set(no.id, ns)
	return &SliceV{obj: no, path: "[]", off: k64(0), len: mkIte(c, a.len, b.len), cap: mkIte(c, a.len, b.len), isnil: mkIte(c, a.isnil, b.isnil), et: a.et}
}

func (x *Exec) mergeAssoc(c *Term, sa *State, a []assocEnt, sb *State, b []assocEnt, out *State) []assocEnt {
	// common prefix is shared
	i := 0
	var r []assocEnt
	for i < len(a) && i < len(b) && a[i].key == b[i].key {
		e := a[i]
		if a[i].cond != b[i].cond || a[i].val != b[i].val {
			e = assocEnt{a[i].key, mkIte(c, a[i].cond, b[i].cond), x.mergeValue(c, sa, a[i].val, sb, b[i].val, out)}
		}
		r = append(r, e)
		i++
	}
	for _, e := range a[i:] {
		r = append(r, assocEnt{e.key, mkAnd(c, e.cond), e.val})
	}
	for _, e := range b[i:] {
		r = append(r, assocEnt{e.key, mkAnd(mkNot(c), e.cond), e.val})
	}
	return r
}
