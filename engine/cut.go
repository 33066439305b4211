package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops without a bound given by the code are cut: everything the loop may
// change is replaced by fresh symbols (the state at the head of an arbitrary
// iteration), constrained by invariants that are proved to hold initially and
// to be preserved by the body; the body is executed once from that state.
// Iterations of such a loop can be coupled with those of a loop cut earlier on
// the same path: if both start with equal values, make equal steps and leave
// together, the state in which the second is left is that of the first.

// comp is one changing component of a loop's state.
type comp struct {
	key   string // unique within the loop
	label string // key without object numbers, for finding counterparts
	w     uint8
	t0, t *Term // initial value and symbol (scalars)
	f0, f *FArr // initial value and symbol (arrays)
	off   int64 // of a counterpart: what to add to its value
	of    *comp
}

type loopRec struct {
	loop   *Loop
	entry  *PC
	needs  []*Term // entry conditions, for instances renamed
	comps  []*comp
	cont   []*Term // conditions under which it goes on (with its invariants)
	nextT  map[string]*Term
	nextF  map[string]*FArr
	kids   []*loopRec
	noBack bool
	own    map[interface{}]bool // symbols made by the loop
}

type cutRun struct {
	x    *Exec
	fr   *Frame
	l    *Loop
	st   *State
	wid  map[string]bool // components that change
	flag map[int]*ObjState
	mem  map[int]map[string]bool // object leaves that change
	syms map[string]*comp
	objs map[string]*Obj
	typ  []*Term          // type invariants of the symbols (hold of any Go value)
	over map[string]*comp // symbols to use instead (coupling)
}

type visitor struct {
	c    *cutRun
	src  *State
	dst  *State // nil: only look
	term func(key string, t *Term, kind string) *Term
	arr  func(key string, f *FArr, w uint8) *FArr
	seen func(key, what string, v interface{})
}

const maxLen = int64(1) << 40

func (v *visitor) note(key, what string, val interface{}) {
	if v.seen != nil {
		v.seen(key, what, val)
	}
}

// val visits a value component by component, returning it rebuilt.
func (v *visitor) val(a Value, key string) Value {
	c := v.c
	if c.wid[key+"!poison"] {
		return &PoisonV{"changed by the loop " + c.l.id + ": " + key}
	}
	switch a := a.(type) {
	case *Term:
		return v.term(key, a, "")
	case *StrV:
		n := v.term(key+".len", a.len, "len")
		if c.wid[key+"!arr"] {
			return &StrV{arr: v.arr(key+".c", shiftArr(a.arr, a.off, 8, a.len), 8), off: k64(0), len: n}
		}
		v.note(key, "!arr", a.arr)
		return &StrV{arr: a.arr, off: v.term(key+".off", a.off, "len"), len: n}
	case *SliceV:
		r := &SliceV{et: a.et}
		r.len = v.term(key+".len", a.len, "len")
		r.cap = v.term(key+".cap", a.cap, "len")
		r.isnil = v.term(key+".nil", a.isnil, "")
		if !c.wid[key+"!obj"] {
			if a.obj == nil {
				v.note(key, "!obj", nil)
				r.path, r.off = a.path, k64(0)
				return r
			}
			v.note(key, "!obj", a.obj)
			r.obj, r.path = a.obj, a.path
			r.off = v.term(key+".off", a.off, "len")
			return r
		}
		o := c.objs[key]
		if o == nil {
			o = c.x.newObj("cut:"+key, a.et, true)
			c.objs[key] = o
		}
		o.whole = r.len
		ns := &ObjState{leaves: map[string]Leaf{}}
		var as *ObjState
		if a.obj != nil {
			as = v.src.ostate(a.obj)
			if as.tainted != "" {
				ns.tainted = as.tainted
			}
			ns.frozen = as.frozen
			ns.appended = as.appended && v.dst == nil
		}
		for _, l := range leavesOf(a.et, true) {
			if l.cells {
				c.wid[key+"!poison"] = true
				return &PoisonV{"slice of " + typeStr(a.et) + " changed by a loop"}
			}
			sz := uint64(l.size)
			f := mkFConst(zeroTerm(l.w))
			if as != nil {
				f = shiftArr(v.src.leafArr(as, a.path+l.path, l.w), mkMulC(a.off, sz), l.w, mkMulC(a.len, sz))
			}
			ns.leaves["[]"+l.path] = Leaf{arr: v.arr(key+"[]"+l.path, f, l.w)}
		}
		if v.dst != nil {
			v.dst.mem = v.dst.mem.set(o.id, ns)
		}
		r.obj, r.path, r.off = o, "[]", k64(0)
		return r
	case *PtrV:
		if a.obj == nil {
			v.note(key, "!poison", nil)
			return a
		}
		v.note(key, "!poison", a.obj.name+a.path)
		return &PtrV{obj: a.obj, path: a.path, idx: v.term(key+".idx", a.idx, ""), isnil: v.term(key+".nil", a.isnil, ""), et: a.et}
	case *AggV:
		r := &AggV{typ: a.typ, leaves: map[string]AggLeaf{}}
		var ks []string
		for k := range a.leaves {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			lf := a.leaves[k]
			if lf.arr == nil {
				r.leaves[k] = AggLeaf{val: v.val(lf.val, key+k)}
				continue
			}
			if c.wid[key+k+"!arr"] {
				n := k64(aggLeafSize(a.typ, k))
				r.leaves[k] = AggLeaf{arr: v.arr(key+k+".c", shiftArr(lf.arr, lf.off, lf.arr.w, n), lf.arr.w), off: k64(0)}
				continue
			}
			v.note(key+k, "!arr", [2]interface{}{lf.arr, lf.off})
			r.leaves[k] = lf
		}
		return r
	case *IfaceV:
		if c.wid[key+"!err"] {
			n := v.term(key+".nil", a.isnil, "")
			return &IfaceV{isnil: n, alts: []IfaceAlt{{cond: mkNot(n), typ: nil, val: &OpaqueV{"error"}}}}
		}
		if len(a.alts) == 0 {
			v.note(key, "!err", "none")
		} else {
			v.note(key, "!err", a)
		}
		return a
	case *MapV:
		v.note(key, "!poison", a.obj)
		return a
	case nil:
		return nil
	default:
		v.note(key, "!poison", a)
		return a
	}
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func objLabel(o *Obj) string {
	n := o.name
	if i := strings.LastIndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	return n
}

// visitAll visits the header registers and the memory that may change.
func (v *visitor) all() {
	c := v.c
	s := v.src
	names := map[string]int{}
	for _, in := range c.l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := c.fr.fi.idx[ph]
		n := phiName(ph)
		names[n]++
		if names[n] > 1 {
			n = fmt.Sprintf("%s'%d", n, names[n])
		}
		if s.regs[i] == nil {
			continue
		}
		r := v.val(s.regs[i], n)
		if v.dst != nil {
			v.dst.regs[i] = r
		}
	}
	var ids []int
	for id := range c.mem {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		u := s.mem.get(id)
		if u == nil {
			continue
		}
		os := u.(*ObjState)
		o := c.x.objs[id-1]
		var ps []string
		for p := range c.mem[id] {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		ns := os.clone()
		for _, p := range ps {
			key := fmt.Sprintf("@%d:%s%s", id, objLabel(o), p)
			lf := os.leaves[p]
			if lf.val == nil && lf.arr == nil && lf.cells == nil {
				lf = c.x.zeroLeaf(o, p)
			}
			switch {
			case lf.cells != nil:
				nc := map[int64]Value{}
				for k, cv := range lf.cells {
					nc[k] = v.val(cv, fmt.Sprintf("%s[%d]", key, k))
				}
				ns.leaves[p] = Leaf{cells: nc}
			case lf.arr != nil:
				ns.leaves[p] = Leaf{arr: v.arr(key, lf.arr, lf.arr.w)}
			default:
				ns.leaves[p] = Leaf{val: v.val(lf.val, key)}
			}
		}
		if v.dst != nil {
			if fl := c.flag[id]; fl != nil {
				ns.tainted, ns.appended, ns.frozen = fl.tainted, fl.appended, fl.frozen
			}
			v.dst.mem = v.dst.mem.set(id, ns)
		}
	}
	if v.dst != nil {
		for id, fl := range c.flag {
			if c.mem[id] != nil {
				continue
			}
			if u := v.dst.mem.get(id); u != nil {
				ns := u.(*ObjState).clone()
				ns.tainted, ns.appended, ns.frozen = fl.tainted, fl.appended, fl.frozen
				v.dst.mem = v.dst.mem.set(id, ns)
			}
		}
	}
}

// zeroLeaf is the value of a leaf that was never written.
func (x *Exec) zeroLeaf(o *Obj, p string) Leaf {
	if o.isMap {
		switch p {
		case "#has":
			return Leaf{arr: mkFConst(tFalse)}
		case "#n":
			return Leaf{val: k64(0)}
		}
		for _, l := range leavesOf(o.typ, true) {
			if "V"+l.path == p && l.w != 255 {
				return Leaf{arr: mkFConst(zeroTerm(l.w))}
			}
		}
		unsup("map leaf %s", p)
	}
	if isDimmed(o, p) {
		for _, dim := range []bool{true, false} {
			for _, l := range leavesOf(o.typ, dim) {
				q := l.path
				if o.isArr {
					q = "[]" + q
				}
				if q == p && l.w != 255 {
					return Leaf{arr: mkFConst(zeroTerm(l.w))}
				}
			}
		}
	}
	for _, l := range leavesOf(o.typ, false) {
		if l.path == p && !l.dim {
			if l.w == 255 {
				return Leaf{val: zeroValue(l.typ)}
			}
			return Leaf{val: zeroTerm(l.w)}
		}
		if l.path == p {
			return Leaf{arr: mkFConst(zeroTerm(l.w))}
		}
	}
	return Leaf{}
}

func labelOf(key string) string {
	if strings.HasPrefix(key, "@") {
		if i := strings.IndexByte(key, ':'); i >= 0 {
			return "@" + key[i+1:]
		}
	}
	return key
}

func (c *cutRun) sym(key string, t *Term, f *FArr, w uint8, kind string) *comp {
	if s := c.over[key]; s != nil {
		return s
	}
	s := c.syms[key]
	if s == nil {
		s = &comp{key: key, label: labelOf(key), w: w}
		if t != nil {
			s.t = mkFresh("cut:"+key, w)
			if kind == "len" {
				s.t.setS(0, maxLen)
				c.x.assumed["slice lengths stay below 2^40 (memory bound)"] = true
			}
			if strings.HasPrefix(key, "@") && strings.HasSuffix(key, "#n") {
				// a map has no more entries than there are keys
				id, _ := strconv.Atoi(key[1:strings.IndexByte(key, ':')])
				if b := c.x.objs[id-1].keyBits; b > 0 && b < 40 && w == 64 {
					s.t.setS(0, 1<<b)
				}
			}
		} else {
			s.f = mkFFresh("cut:"+key, w)
			if strings.HasSuffix(key, "#len") {
				s.f.hasIv, s.f.ulo, s.f.uhi, s.f.slo, s.f.shi = true, 0, uint64(maxLen), 0, maxLen
			}
		}
		c.syms[key] = s
	}
	return s
}

// build makes the state at the head of an arbitrary iteration.
func (c *cutRun) build() (*State, []*comp) {
	g := c.st.clone()
	var comps []*comp
	v := &visitor{c: c, src: c.st, dst: g}
	v.term = func(key string, t *Term, kind string) *Term {
		if !c.wid[key] {
			return t
		}
		s := c.sym(key, t, nil, t.w, kind)
		comps = append(comps, &comp{key: key, label: labelOf(key), w: t.w, t0: t, t: s.t})
		return s.t
	}
	v.arr = func(key string, f *FArr, w uint8) *FArr {
		if !c.wid[key] {
			return f
		}
		s := c.sym(key, nil, f, w, "")
		comps = append(comps, &comp{key: key, label: labelOf(key), w: w, f0: f, f: s.f})
		return s.f
	}
	v.all()
	// what holds of every Go value
	has := map[string]*comp{}
	for _, k := range comps {
		has[k.key] = k
	}
	for _, k := range comps {
		if strings.HasSuffix(k.key, ".cap") {
			if l := has[strings.TrimSuffix(k.key, ".cap")+".len"]; l != nil {
				g.assume(mkSle(l.t, k.t))
			}
		}
		if strings.HasSuffix(k.key, ".nil") && k.t != nil {
			if l := has[strings.TrimSuffix(k.key, ".nil")+".len"]; l != nil {
				g.assume(mkOr(mkNot(k.t), mkEq(l.t, k64(0))))
			}
		}
	}
	return g, comps
}

// look collects the components of a state.
func (c *cutRun) look(s *State) (map[string]*Term, map[string]*FArr, map[string]interface{}) {
	ts, fs, ns := map[string]*Term{}, map[string]*FArr{}, map[string]interface{}{}
	v := &visitor{c: c, src: s}
	v.term = func(key string, t *Term, kind string) *Term { ts[key] = t; return t }
	v.arr = func(key string, f *FArr, w uint8) *FArr { fs[key] = f; return f }
	v.seen = func(key, what string, val interface{}) { ns[key+what] = val }
	v.all()
	return ts, fs, ns
}

// widen compares the state after an iteration with the one before; it reports
// whether something more changes than was known.
func (c *cutRun) widen(g, b *State) bool {
	changed := false
	add := func(k string) {
		if !c.wid[k] {
			c.wid[k] = true
			changed = true
			if os.Getenv("GV_CUT") != "" {
				fmt.Fprintf(os.Stderr, "   %s: widen %s\n", c.l.id, k)
			}
		}
	}
	// memory first: which leaves change
	pdiff(g.mem.root, b.mem.root, pdepth-1, 0, func(id int, u, w interface{}) {
		if u == nil || w == nil {
			return
		}
		p, q := u.(*ObjState), w.(*ObjState)
		if o := c.x.objs[id-1]; strings.HasPrefix(o.name, "cut:") {
			// generic objects of this loop: seen through the slice
			for k, oo := range c.objs {
				if oo == o {
					_ = k
					return
				}
			}
		}
		if p.tainted != q.tainted || p.appended != q.appended || p.frozen != q.frozen {
			f := c.flag[id]
			if f == nil || f.tainted != q.tainted || f.appended != q.appended || f.frozen != q.frozen {
				c.flag[id] = q
				changed = true
			}
		}
		same := len(p.assoc) == len(q.assoc)
		for i := range p.assoc {
			same = same && i < len(q.assoc) && p.assoc[i] == q.assoc[i]
		}
		if !same {
			unsup("loop %s changes a map with string keys", c.l.id)
		}
		ks := map[string]bool{}
		for k := range p.leaves {
			ks[k] = true
		}
		for k := range q.leaves {
			ks[k] = true
		}
		for k := range ks {
			x, y := p.leaves[k], q.leaves[k]
			if x.arr == y.arr && x.val == y.val && (x.cells == nil) == (y.cells == nil) && sameCells(x.cells, y.cells) {
				continue
			}
			if c.mem[id] == nil {
				c.mem[id] = map[string]bool{}
			}
			if !c.mem[id][k] {
				c.mem[id][k] = true
				changed = true
			}
		}
	})
	ta, fa, na := c.look(g)
	tb, fb, nb := c.look(b)
	for k, t := range ta {
		if u, ok := tb[k]; ok && u != t && !c.wid[k] && !b.decide(mkEqAny(u, t)).isTrue() {
			add(k)
		}
	}
	for k, f := range fa {
		if u, ok := fb[k]; ok && u != f {
			add(k)
		}
	}
	for k, a := range na {
		if b, ok := nb[k]; !ok || a != b {
			add(k)
		}
	}
	for k := range nb {
		if _, ok := na[k]; !ok && !c.wid[k] {
			add(k)
		}
	}
	// what changed when this loop was met before
	known := c.x.widened[c.l.id]
	if known == nil {
		known = map[string]bool{}
		c.x.widened[c.l.id] = known
	}
	if changed {
		for k := range ta {
			if known[labelOf(k)] {
				add(k)
			}
		}
		for k := range fa {
			if known[labelOf(k)] {
				add(k)
			}
		}
		for k := range c.wid {
			known[labelOf(k)] = true
		}
	}
	return changed
}

func mkEqAny(a, b *Term) *Term {
	if a.w == 0 {
		return mkIff(a, b)
	}
	return mkEq(a, b)
}

func sameCells(a, b map[int64]Value) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// body runs the loop body once from g.
func (c *cutRun) body(g *State, quiet bool) (exits []edge, b *State, kids []*loopRec) {
	x := c.x
	n := len(x.cutRec)
	rets := c.fr.rets
	if quiet {
		x.quiet++
		defer func() { x.quiet--; x.cutRec = x.cutRec[:n]; c.fr.rets = rets }()
	}
	exits, backs := x.runRegion(c.fr, c.l, c.l.header, g)
	var ss []*State
	for _, e := range backs {
		x.phis(c.fr.fi, e)
		x.dropDead(c.fr.fi, c.l.header, e.st)
		ss = append(ss, e.st)
	}
	kids = append(kids, x.cutRec[n:]...)
	return exits, x.mergeAll(ss), kids
}

// shows decides a goal in a state, by its facts or by a solver.
func shows(s *State, goal *Term) bool { return showsAll([]*State{s}, []*Term{goal})[0] }

// showsAll decides goals, each in its state; the solvers work in parallel.
func showsAll(ss []*State, goals []*Term) []bool {
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	lim := make(chan bool, 8)
	for i, goal := range goals {
		g := ss[i].decide(goal)
		if g.isTrue() {
			out[i] = true
			continue
		}
		conds := ss[i].pc.conds()
		dead := false
		for _, c := range conds {
			dead = dead || c.isFalse()
		}
		if dead {
			out[i] = true
			continue
		}
		q, _ := smtQuery(conds, g, false)
		wg.Add(1)
		lim <- true
		go func(i int) {
			defer func() { <-lim; wg.Done() }()
			t0 := time.Now()
			res := Unknown
			for _, name := range []string{"z3", "z3-new"} {
				t1 := time.Now()
				s := solvers.get(name)
				r, _ := s.ask(q, nil, nil, 3*time.Second)
				solvers.put(name, s)
				stats.mu.Lock()
				stats.Queries++
				stats.ByName[name]++
				stats.Time += time.Since(t1)
				stats.mu.Unlock()
				if r != Unknown {
					res = r
					break
				}
			}
			out[i] = res == Valid
			if res != Valid && os.Getenv("GV_CUT") == "3" {
				os.WriteFile(fmt.Sprintf("/tmp/gv_q%d.smt2", stats.Queries), []byte("; "+dumpTerm(goals[i], 5)+"\n"+q+"(check-sat)\n(get-model)\n"), 0644)
			}
			if d := time.Since(t0); d > 300*time.Millisecond && os.Getenv("GV_CUT") != "" {
				fmt.Fprintf(os.Stderr, "     asked for %.1fs: %v\n", d.Seconds(), res)
			}
		}(i)
	}
	wg.Wait()
	return out
}

// showsIn decides goals in one state.
func showsIn(s *State, goals []*Term) []bool {
	ss := make([]*State, len(goals))
	for i := range ss {
		ss[i] = s
	}
	return showsAll(ss, goals)
}

func (c *cutRun) substInit(comps []*comp) *Subst {
	s := newSubst()
	for _, k := range comps {
		if k.t != nil {
			s.t[k.t] = k.t0
		} else {
			s.f[k.f] = k.f0
		}
	}
	return s
}

func substNext(comps []*comp, ts map[string]*Term, fs map[string]*FArr) *Subst {
	s := newSubst()
	for _, k := range comps {
		if k.t != nil {
			if n := ts[k.key]; n != nil {
				s.t[k.t] = n
			}
		} else if n := fs[k.key]; n != nil {
			s.f[k.f] = n
		}
	}
	return s
}

// candidates for invariants of the scalar components
// isMem tells the components of slices.
func isMem(k *comp) bool {
	return strings.HasSuffix(k.key, ".len") || strings.HasSuffix(k.key, ".cap") || strings.HasSuffix(k.key, ".off")
}

func (c *cutRun) candidates(g *State, comps []*comp, ts map[string]*Term) []*Term {
	var out []*Term
	has := map[string]*comp{}
	for _, k := range comps {
		has[k.key] = k
	}
	for _, k := range comps {
		if k.t == nil || k.w != 64 {
			continue
		}
		out = append(out, mkSle(k.t0, k.t), mkSle(k.t, k.t0))
		if n := ts[k.key]; n != nil && n.slo > -1<<62 && n.shi < 1<<62 && k.t0.slo > -1<<62 && k.t0.shi < 1<<62 && k.t.shi-k.t.slo < 0 {
			lo, hi := n.slo, n.shi
			if k.t0.slo < lo {
				lo = k.t0.slo
			}
			if k.t0.shi > hi {
				hi = k.t0.shi
			}
			out = append(out, mkSle(k64(lo), k.t), mkSle(k.t, k64(hi)))
		}
		if !(k.t0.isConst() && k.t0.v == 0) {
			out = append(out, mkSle(k64(0), k.t))
		}
		if strings.HasSuffix(k.key, ".off") {
			b := strings.TrimSuffix(k.key, ".off")
			for _, s := range []string{".len", ".cap"} {
				if l := has[b+s]; l != nil {
					out = append(out, mkEq(mkAdd(k.t, l.t), mkAdd(k.t0, l.t0)))
				}
			}
		}
		for _, j := range comps {
			// values that move together
			if j != k && j.t != nil && j.w == 64 && j.key < k.key {
				out = append(out, mkEq(mkSub(k.t, j.t), mkSub(k.t0, j.t0)))
			}
		}
	}
	for _, k := range comps {
		for _, j := range comps {
			// values in order
			if k == j || k.t == nil || j.t == nil || k.w != 64 || j.w != 64 || isMem(k) || isMem(j) {
				continue
			}
			for _, d := range []int64{1, 0} {
				if g.decide(mkSle(mkAddC(k.t0, d), j.t0)).isTrue() {
					out = append(out, mkSle(mkAddC(k.t, d), j.t))
				}
			}
		}
	}
	for _, k := range comps {
		if k.t != nil && k.w == 8 {
			out = append(out, mkUle(k.t, mkConst(127, 8)))
		}
	}
	out = append(out, c.guardBounds(g)...)
	return out
}

// guardBounds: for a header guard  v+k < n  the bound  v+k <= n.
func (c *cutRun) guardBounds(g *State) []*Term {
	b := c.l.header
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	var ev func(v ssa.Value) *Term
	ev = func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Const:
			t, _ := c.x.constVal(v).(*Term)
			return t
		case *ssa.BinOp:
			if v.Block() == b {
				p, q := ev(v.X), ev(v.Y)
				if p == nil || q == nil || p.w != 64 {
					return nil
				}
				switch v.Op {
				case token.ADD:
					return mkAdd(p, q)
				case token.SUB:
					return mkSub(p, q)
				}
				return nil
			}
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && v.Block() == b {
				if i, ok := c.fr.fi.idx[v.Call.Args[0]]; ok {
					switch s := g.regs[i].(type) {
					case *SliceV:
						return s.len
					case *StrV:
						return s.len
					}
				}
				return nil
			}
		}
		if i, ok := c.fr.fi.idx[v]; ok {
			t, _ := g.regs[i].(*Term)
			return t
		}
		return nil
	}
	p, q := ev(bo.X), ev(bo.Y)
	if p == nil || q == nil || p.w != 64 {
		return nil
	}
	switch bo.Op {
	case token.LSS, token.NEQ, token.LEQ:
		if a, ok := bo.X.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == b {
			if t := ev(a.X); t != nil {
				return []*Term{mkSle(p, q), mkSle(t, mkAdd(mkSub(t, p), q))}
			}
		}
		return []*Term{mkSle(p, q)}
	case token.GTR, token.GEQ:
		return []*Term{mkSle(q, p)}
	}
	return nil
}

// ranking finds a measure that shows the loop ends: a component that grows (or
// shrinks) with every iteration and is bounded, or a set of keys that grows
// within a bounded key space. The bounds on slice lengths that memory gives
// are not used: lengths are anything the conditions of the path allow.
func (c *cutRun) ranking(b *State, comps []*comp, ts map[string]*Term, fs map[string]*FArr) string {
	free := newSubst()
	for _, k := range comps {
		if k.t != nil && isMem(k) {
			free.t[k.t] = mkFresh("any:"+k.key, k.w)
		}
	}
	var conds []*Term
	for _, t := range b.pc.conds() {
		conds = append(conds, free.term(t))
	}
	for _, k := range comps {
		if k.t == nil || k.w == 0 {
			continue
		}
		n := ts[k.key]
		if n == nil {
			continue
		}
		if k.w != 64 {
			if shows(b, mkUlt(k.t, n)) {
				return k.key + " grows, within its type"
			}
			if shows(b, mkUlt(n, k.t)) {
				return k.key + " shrinks, within its type"
			}
			continue
		}
		lim := k64(1 << 41)
		was, is := free.term(k.t), free.term(n)
		if prove(conds, mkAnd(mkSlt(was, is), mkSlt(is, lim)), 3*time.Second, []string{"z3", "z3-new"}, false).res == Valid {
			return k.key + " grows, below 2^41"
		}
		if shows(b, mkAnd(mkSlt(n, k.t), mkSle(k64(0), k.t))) {
			return k.key + " shrinks, not below 0"
		}
	}
	for _, k := range comps {
		if k.f == nil || k.w != 0 {
			continue
		}
		n := fs[k.key]
		if n == nil || n.op != FStore || n.f[0] != k.f || !n.t[1].isTrue() {
			continue
		}
		if n.t[0].uhi < 1<<32 && shows(b, mkNot(sel(k.f, n.t[0]))) {
			return k.key + " gains an element every time, of finitely many"
		}
		// a map to bool: the keys that map to true
		if !strings.HasSuffix(k.key, "#has") {
			continue
		}
		for _, j := range comps {
			if j.f == nil || j.w != 0 || j.key != strings.TrimSuffix(k.key, "#has")+"V" {
				continue
			}
			m := fs[j.key]
			if m != nil && m.op == FStore && m.f[0] == j.f && m.t[1].isTrue() && m.t[0] == n.t[0] &&
				n.t[0].uhi < 1<<32 && shows(b, mkNot(mkAnd(sel(k.f, n.t[0]), sel(j.f, n.t[0])))) {
				return k.key + " gains a key mapped to true every time, of finitely many"
			}
		}
	}
	return ""
}

// invT is an invariant; with a variable, one that holds of all its values.
type invT struct{ t, v *Term }

func (i invT) addTo(s *State, sub *Subst) {
	t := i.t
	if sub != nil {
		t = sub.term(t)
	}
	if i.v == nil {
		s.assume(t)
		return
	}
	s.pc = &PC{parent: s.pc, cond: tTrue, depth: s.pc.depth + 1, all: &invT{t, i.v}}
}

// useAll adds the instances at idx of what is known to hold for all indices.
func (s *State) useAll(idx *Term) {
	var ts []*Term
	for p := s.pc; p != nil; p = p.parent {
		if p.all != nil {
			sub := newSubst()
			sub.t[p.all.v] = idx
			ts = append(ts, sub.term(p.all.t))
		}
	}
	for i := len(ts) - 1; i >= 0; i-- {
		s.assume(ts[i])
	}
}

func (s *State) knowsAll() bool {
	for p := s.pc; p != nil; p = p.parent {
		if p.all != nil {
			return true
		}
	}
	return false
}

// goalIn is the goal that i (renamed) holds in s, and the state to show it in.
func (i invT) goalIn(s *State, sub *Subst) (*State, *Term) {
	if i.v != nil {
		s = s.clone()
		s.useAll(i.v)
	}
	return s, sub.term(i.t)
}

func showsInv(s *State, is []invT, sub *Subst) []bool {
	ss, gs := make([]*State, len(is)), make([]*Term, len(is))
	for k, i := range is {
		ss[k], gs[k] = i.goalIn(s, sub)
	}
	return showsAll(ss, gs)
}

func (x *Exec) cutLoop(fr *Frame, l *Loop, st *State) []edge {
	c := &cutRun{x: x, fr: fr, l: l, st: st, wid: map[string]bool{}, flag: map[int]*ObjState{}, mem: map[int]map[string]bool{},
		syms: map[string]*comp{}, objs: map[string]*Obj{}}
	id0, f0 := tc.next, tc.nextF
	var inv []invT
	var given []invT // by the contract
	sink := x.given
	defer func() { x.given = sink }()
	var comps []*comp
	var ts map[string]*Term
	var fs map[string]*FArr
	haveInv := false
	going := true
	for round := 0; ; round++ {
		if round > 60 {
			unsup("loop %s: no stable set of changing components", l.id)
		}
		var g *State
		g, comps = c.build()
		for _, i := range inv {
			i.addTo(g, nil)
		}
		x.alone++
		given = nil
		x.given = &given
		_, b, _ := c.body(g.clone(), true)
		x.given = nil
		x.alone--
		if b == nil {
			going = false
			break
		}
		if c.widen(g, b) {
			haveInv, inv = false, nil
			continue
		}
		ts, fs, _ = c.look(b)
		if !haveInv {
			haveInv = true
			si := c.substInit(comps)
			var cs []invT
			for _, k := range c.candidates(g, comps, ts) {
				if !k.isConst() {
					cs = append(cs, invT{t: k})
				}
			}
			for _, k := range given {
				if !k.t.isConst() {
					cs = append(cs, k)
				}
			}
			for i, ok := range showsInv(st, cs, si) {
				if ok {
					inv = append(inv, cs[i])
				} else if os.Getenv("GV_CUT") == "2" {
					fmt.Fprintf(os.Stderr, "   %s: not at the start: %s\n", l.id, dumpTerm(cs[i].t, 4))
				}
			}
			if len(inv) > 0 {
				continue
			}
		}
		sn := substNext(comps, ts, fs)
		var keep []invT
		for i, ok := range showsInv(b, inv, sn) {
			if ok {
				keep = append(keep, inv[i])
			} else if os.Getenv("GV_CUT") == "2" {
				fmt.Fprintf(os.Stderr, "   %s: not preserved: %s\n", l.id, dumpTerm(inv[i].t, 4))
			}
		}
		if len(keep) == len(inv) {
			break
		}
		inv = keep
	}
	x.loopsCut[l.id]++
	if os.Getenv("GV_CUT") != "" {
		fmt.Fprintf(os.Stderr, " cut %s: %d components, %d invariants, goes on: %v\n", l.id, len(comps), len(inv), going)
		for _, k := range comps {
			fmt.Fprintf(os.Stderr, "     %s\n", k.key)
		}
		for _, k := range inv {
			fmt.Fprintf(os.Stderr, "     invariant %s\n", dumpTerm(k.t, 4))
		}
	}
	if going && x.alone == 0 {
		if e, ok := c.couple(comps, inv); ok {
			return e
		}
	}
	g, comps := c.build()
	for _, i := range inv {
		i.addTo(g, nil)
	}
	rec := &loopRec{loop: l, entry: st.pc, comps: comps}
	exits, b, kids := c.body(g, false)
	rec.kids = kids
	if b == nil {
		rec.noBack = true
	} else {
		ts, fs, _ = c.look(b)
		rec.nextT, rec.nextF = ts, fs
		rec.cont = condsSince(b.pc, st.pc)
		why := c.ranking(b, comps, ts, fs)
		if x.quiet == 0 {
			if why == "" {
				x.oblige(b, "termination", "the loop "+l.id+" ends", tFalse, l.header.Instrs[0].Pos())
			} else {
				x.nTriv++
				x.loopNotes = append(x.loopNotes, fmt.Sprintf("loop %s cut at its head: %d changing components, %d invariants proved; ends because %s", l.id, len(comps), len(inv), why))
			}
		}
	}
	rec.own = map[interface{}]bool{}
	rec.eachVar(func(t *Term, f *FArr) {
		if t != nil && t.id >= id0 {
			rec.own[t] = true
		}
		if f != nil && f.id >= f0 {
			rec.own[f] = true
		}
	})
	x.cutRec = append(x.cutRec, rec)
	return exits
}

// eachVar visits the variables in what is recorded about a loop.
func (r *loopRec) eachVar(visit func(t *Term, f *FArr)) {
	done := map[interface{}]bool{}
	var wt func(t *Term)
	var wf func(f *FArr)
	wt = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.op == OVar && !t.bnd {
			visit(t, nil)
		}
		for _, a := range t.a {
			wt(a)
		}
		if t.arr != nil {
			wf(t.arr)
		}
	}
	wf = func(f *FArr) {
		if done[f] {
			return
		}
		done[f] = true
		if f.op == FVarA {
			visit(nil, f)
		}
		for _, a := range f.f {
			wf(a)
		}
		for _, a := range f.t {
			wt(a)
		}
	}
	var walk func(q *loopRec)
	walk = func(q *loopRec) {
		for _, k := range q.comps {
			if k.t != nil {
				wt(k.t)
				wt(k.t0)
			} else {
				wf(k.f)
				wf(k.f0)
			}
		}
		for _, t := range q.cont {
			wt(t)
		}
		for _, t := range q.needs {
			wt(t)
		}
		if q.entry != nil && q != r {
			for _, t := range condsSince(q.entry, r.entry) {
				wt(t)
			}
		}
		for _, t := range q.nextT {
			wt(t)
		}
		for _, f := range q.nextF {
			wf(f)
		}
		for _, k := range q.kids {
			walk(k)
		}
	}
	walk(r)
}

// condsSince: the conditions of p added after anc (an ancestor, or all).
func condsSince(p, anc *PC) []*Term {
	var out []*Term
	for ; p != nil && p != anc; p = p.parent {
		if !p.cond.isTrue() {
			out = append(out, p.cond)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func isAncestor(a, p *PC) bool {
	for p != nil && p.depth > a.depth {
		p = p.parent
	}
	return p == a
}

// renamed makes a copy of a record (with its inner loops) in which every
// symbol made by the loop is a fresh one.
func (r *loopRec) renamed() *loopRec {
	s := newSubst()
	for o := range r.own {
		switch v := o.(type) {
		case *Term:
			n := mkFresh("again:"+v.name, v.w)
			n.slo, n.shi, n.ulo, n.uhi = v.slo, v.shi, v.ulo, v.uhi
			s.t[v] = n
		case *FArr:
			n := mkFFresh("again:"+v.name, v.w)
			n.hasIv, n.ulo, n.uhi, n.slo, n.shi = v.hasIv, v.ulo, v.uhi, v.slo, v.shi
			s.f[v] = n
		}
	}
	var cp func(q *loopRec) *loopRec
	cp = func(q *loopRec) *loopRec {
		n := &loopRec{loop: q.loop, noBack: q.noBack, nextT: map[string]*Term{}, nextF: map[string]*FArr{}, own: map[interface{}]bool{}}
		for o := range q.own {
			switch v := o.(type) {
			case *Term:
				if m := s.t[v]; m != nil {
					n.own[m] = true
				}
			case *FArr:
				if m := s.f[v]; m != nil {
					n.own[m] = true
				}
			}
		}
		if q != r {
			need := q.needs
			if q.entry != nil {
				need = condsSince(q.entry, r.entry)
			}
			for _, t := range need {
				n.needs = append(n.needs, s.term(t))
			}
		}
		for _, k := range q.comps {
			m := &comp{key: k.key, label: k.label, w: k.w}
			if k.t != nil {
				m.t0, m.t = s.term(k.t0), s.term(k.t)
			} else {
				m.f0, m.f = s.farr(k.f0), s.farr(k.f)
			}
			n.comps = append(n.comps, m)
		}
		for _, t := range q.cont {
			n.cont = append(n.cont, s.term(t))
		}
		for k, t := range q.nextT {
			n.nextT[k] = s.term(t)
		}
		for k, f := range q.nextF {
			n.nextF[k] = s.farr(f)
		}
		for _, k := range q.kids {
			n.kids = append(n.kids, cp(k))
		}
		return n
	}
	return cp(r)
}

// allKids lists the inner loops of a record.
func (r *loopRec) allKids() []*loopRec {
	var out []*loopRec
	for _, k := range r.kids {
		out = append(out, k)
	}
	return out
}

// isSpecFn tells the functions of contract files from the code's.
func isSpecFn(f *ssa.Function) bool {
	return strings.HasPrefix(filepath.Base(f.Prog.Fset.Position(f.Pos()).Filename), "zz_verif")
}

// couple tries to identify this loop's iterations with those of a loop cut
// before on the same path.
func (c *cutRun) couple(comps []*comp, inv []invT) ([]edge, bool) {
	x := c.x
	// loops that were coupled before come first, then those nested as deep
	depth := func(l *Loop) (n int) {
		for ; l != nil; l = l.parent {
			n++
		}
		return n
	}
	var rs []*loopRec
	for i := len(x.cutRec) - 1; i >= 0; i-- {
		rs = append(rs, x.cutRec[i])
	}
	rank := func(r *loopRec) int {
		n := x.paired[c.l.id+"/"+r.loop.id]
		if n == 0 && depth(c.l) != depth(r.loop) {
			n = -1
		}
		return n
	}
	sort.SliceStable(rs, func(i, j int) bool { return rank(rs[i]) > rank(rs[j]) })
	// a loop that matches in all components is taken at once, otherwise the
	// one that matches in most
	type try struct {
		r      *loopRec
		pair   string
		n      int
		commit func() ([]edge, bool)
	}
	var tries []try
	for _, r := range rs {
		pair := c.l.id + "/" + r.loop.id
		if x.paired[pair] <= -3 {
			continue
		}
		if r.noBack || r.loop.id != c.l.id && isSpecFn(r.loop.header.Parent()) == isSpecFn(c.l.header.Parent()) {
			continue // of no use
		}
		if r.entry != nil {
			if !isAncestor(r.entry, c.st.pc) {
				ok := true
				for _, t := range condsSince(r.entry, commonPC(r.entry, c.st.pc)) {
					if !shows(c.st, t) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
			}
		} else {
			ok := true
			for _, t := range r.needs {
				if !shows(c.st, t) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
		}
		n, commit := c.coupleWith(r, comps, inv)
		if n == len(comps) {
			if e, ok := commit(); ok {
				x.paired[pair] = 2
				return e, true
			}
			n = 0
		}
		if n > 0 {
			tries = append(tries, try{r, pair, n, commit})
			continue
		}
		if x.paired[pair] <= 0 {
			x.paired[pair]--
		}
	}
	sort.SliceStable(tries, func(i, j int) bool { return tries[i].n > tries[j].n })
	for _, t := range tries {
		if e, ok := t.commit(); ok {
			x.paired[t.pair] = 1
			return e, true
		}
		if x.paired[t.pair] <= 0 {
			x.paired[t.pair]--
		}
	}
	return nil, false
}

// tail is a label without the name of the variable.
func tail(s string) string {
	if i := strings.IndexAny(s, ".[#"); i >= 0 {
		return s[i:]
	}
	return ""
}

func commonPC(a, b *PC) *PC {
	for a.depth > b.depth {
		a = a.parent
	}
	for b.depth > a.depth {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

// coupleWith looks for components that move together: how many, and a function
// that goes on from the end of both loops.
func (c *cutRun) coupleWith(r *loopRec, comps []*comp, inv []invT) (int, func() ([]edge, bool)) {
	x := c.x
	dbg := os.Getenv("GV_CUT") != ""
	cand := map[string][]*comp{}
	n := 0
	for _, k := range comps {
		for pass := 0; pass < 3; pass++ {
			for _, j := range r.comps {
				p := 2
				if j.label == k.label {
					p = 0
				} else if tail(j.label) == tail(k.label) {
					p = 1
				}
				if (j.t == nil) != (k.t == nil) || j.w != k.w || p != pass {
					continue
				}
				same := j.t != nil && (j.t0 == k.t0 || c.st.decide(mkEqAny(j.t0, k.t0)).isTrue()) || j.f != nil && j.f0 == k.f0
				if !same && pass < 2 && len(cand[k.key]) == 0 {
					if j.t != nil {
						same = shows(c.st, mkEqAny(j.t0, k.t0))
					} else {
						same = shows(c.st, sameArr(j.f0, k.f0))
					}
				}
				if same {
					cand[k.key] = append(cand[k.key], j)
				}
			}
		}
		if k.t != nil && k.w == 64 && !isMem(k) {
			// counters that start elsewhere
			for _, j := range r.comps {
				if j.t == nil || j.w != 64 || isMem(j) {
					continue
				}
				if d := mkSub(k.t0, j.t0); d.isConst() && d.v != 0 && (d.v < 8 || -d.v < 8) {
					m := *j
					m.off, m.of = int64(d.v), j
					cand[k.key] = append(cand[k.key], &m)
				}
			}
		}
		if len(cand[k.key]) > 0 {
			n++
		} else if dbg {
			fmt.Fprintf(os.Stderr, "    %s: nothing in %s starts like %s\n", c.l.id, r.loop.id, k.key)
		}
	}
	if n == 0 {
		return 0, nil
	}
	again := r.renamed()
	ra := map[string]*comp{}
	for _, k := range again.comps {
		ra[k.key] = k
	}
	saved := len(x.cutRec)
	defer func() { c.over = nil }()
	// identify takes the symbols of the matched components instead of new ones
	identify := func(asg map[string]*comp, of func(*comp) *comp) *Subst {
		c.over = map[string]*comp{}
		fresh := newSubst()
		for _, k := range comps {
			if j := asg[k.key]; j != nil {
				m := of(j)
				if j.off != 0 {
					moved := *m
					moved.t = mkAddC(m.t, j.off)
					m = &moved
				}
				c.over[k.key] = m
				if k.t != nil {
					fresh.t[k.t] = m.t
				} else {
					fresh.f[k.f] = m.f
				}
			}
		}
		return fresh
	}
	renamedComp := func(j *comp) *comp { return ra[j.key] }
	mkStep := func(asg map[string]*comp) *State {
		fresh := identify(asg, renamedComp)
		g, _ := c.build()
		for _, t := range inv {
			t.addTo(g, fresh)
		}
		for _, t := range again.cont {
			g.assume(t)
		}
		return g
	}
	// step makes one step of both, from states identified: the components that
	// then differ, and whether the second can leave
	step := func(asg map[string]*comp, max int) (fails []string, leaves bool) {
		x.cutRec = append(x.cutRec, again.allKids()...)
		exits, b, _ := c.body(mkStep(asg), true)
		x.cutRec = x.cutRec[:saved]
		if b == nil {
			return nil, true
		}
		ts, fs, _ := c.look(b)
		var ks []*comp
		var gs []*Term
		for _, k := range comps {
			j := asg[k.key]
			if j == nil {
				continue
			}
			g := tFalse
			if k.t != nil {
				if p, q := ts[k.key], again.nextT[j.key]; p != nil && q != nil {
					if j.off != 0 {
						q = mkAddC(q, j.off)
					}
					g = mkEqAny(p, q)
				}
			} else if p, q := fs[k.key], again.nextF[j.key]; p != nil && q != nil {
				g = sameArr(p, q)
			}
			ks, gs = append(ks, k), append(gs, g)
		}
		for i, ok := range showsIn(b, gs) {
			k := ks[i]
			j := asg[k.key]
			if !ok {
				if dbg {
					fmt.Fprintf(os.Stderr, "    %s: %s does not move with %s of %s\n", c.l.id, k.key, j.key, r.loop.id)
				}
				if fails = append(fails, k.key); len(fails) >= max {
					return
				}
			}
		}
		if len(fails) > 0 {
			return
		}
		var es []*State
		gs = nil
		for _, e := range exits {
			es, gs = append(es, e.st), append(gs, tFalse)
		}
		for i, ok := range showsAll(es, gs) {
			if e := exits[i]; !ok {
				if dbg {
					fmt.Fprintf(os.Stderr, "    %s may leave (to block %d) before %s\n", c.l.id, e.to.Index, r.loop.id)
					if os.Getenv("GV_CUT") == "2" {
						for _, t := range condsSince(e.st.pc, c.st.pc) {
							fmt.Fprintf(os.Stderr, "        %s\n", dumpTerm(t, 7))
						}
					}
				}
				return nil, true
			}
		}
		return
	}
	var asg map[string]*comp
	fails := make([]string, len(comps)+1)
	dull := 0
	for _, a := range assignments(comps, cand, 24) {
		if dull++; dull > 6 {
			break
		}
		f, leaves := step(a, len(fails))
		if len(f) == 0 && leaves {
			continue
		}
		if len(f) < len(fails) {
			asg, fails, dull = a, f, 0
		}
		if len(f) == 0 {
			break
		}
	}
	for asg != nil && len(fails) > 0 {
		for _, k := range fails {
			delete(asg, k)
		}
		if len(asg) == 0 {
			asg = nil
			break
		}
		var leaves bool
		if fails, leaves = step(asg, len(comps)+1); leaves {
			asg = nil
		}
	}
	if asg == nil {
		return 0, nil
	}
	return len(asg), func() ([]edge, bool) {
		defer func() { c.over = nil }()
		return c.commit(r, asg, mkStep, identify, again, inv)
	}
}

// commit makes the last iteration and what follows.
func (c *cutRun) commit(r *loopRec, asg map[string]*comp, mkStep func(map[string]*comp) *State,
	identify func(map[string]*comp, func(*comp) *comp) *Subst, again *loopRec, inv []invT) ([]edge, bool) {
	x := c.x
	dbg := os.Getenv("GV_CUT") != ""
	saved := len(x.cutRec)
	if x.quiet == 0 {
		// what the body itself must satisfy, in the iterations before
		x.cutRec = append(x.cutRec, again.allKids()...)
		rets := c.fr.rets
		c.body(mkStep(asg), false)
		c.fr.rets = rets
		x.cutRec = x.cutRec[:saved]
	}
	// the last iteration
	final := func() *State {
		fresh := identify(asg, func(j *comp) *comp {
			if j.of != nil {
				return j.of
			}
			return j
		})
		g, _ := c.build()
		for _, t := range inv {
			t.addTo(g, fresh)
		}
		return g
	}
	_, b, _ := c.body(final(), true)
	if b != nil && !shows(b, tFalse) {
		if dbg {
			fmt.Fprintf(os.Stderr, "    %s may go on after %s\n", c.l.id, r.loop.id)
		}
		return nil, false
	}
	out, _, _ := c.body(final(), false)
	if x.quiet == 0 {
		x.nTriv += 2
		x.loopNotes = append(x.loopNotes, fmt.Sprintf("loop %s coupled with %s: equal starts, equal steps, left together", c.l.id, r.loop.id))
	}
	if dbg {
		fmt.Fprintf(os.Stderr, "    %s coupled with %s\n", c.l.id, r.loop.id)
	}
	return out, true
}

// assignments lists ways to match components with different candidates.
func assignments(comps []*comp, cand map[string][]*comp, max int) []map[string]*comp {
	var out []map[string]*comp
	used := map[*comp]bool{}
	cur := map[string]*comp{}
	var rec func(i int)
	rec = func(i int) {
		if len(out) >= max {
			return
		}
		if i == len(comps) {
			m := map[string]*comp{}
			for k, v := range cur {
				m[k] = v
			}
			out = append(out, m)
			return
		}
		k := comps[i]
		any := false
		for _, j := range cand[k.key] {
			u := j
			if j.of != nil {
				u = j.of
			}
			if used[u] {
				continue
			}
			any = true
			used[u] = true
			cur[k.key] = j
			rec(i + 1)
			delete(cur, k.key)
			used[u] = false
		}
		if !any {
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

// sameArr: equal at every index.
func sameArr(a, b *FArr) *Term {
	if a == b {
		return tTrue
	}
	i := mkFresh("sk", 64)
	return mkEqAny(sel(a, i), sel(b, i))
}
