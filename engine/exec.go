package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- static information about functions

type Loop struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	parent   *Loop
	children []*Loop
	id       string // function#ordinal
	fn       *ssa.Function
}

type FnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	n      int
	rpo    []*ssa.BasicBlock
	loops  []*Loop
	inner  map[*ssa.BasicBlock]*Loop // innermost loop of a block
	head   map[*ssa.BasicBlock]*Loop
	liveIn map[*ssa.BasicBlock]map[int]bool
}

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := x.infos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, inner: map[*ssa.BasicBlock]*Loop{}, head: map[*ssa.BasicBlock]*Loop{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	byHead := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					byHead[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range c.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	for _, b := range fi.rpo {
		if l := byHead[b]; l != nil {
			fi.loops = append(fi.loops, l)
			fi.head[b] = l
		}
	}
	for i, l := range fi.loops {
		l.id = fmt.Sprintf("%s#%d", fnName(fn), i)
		// parent: smallest other loop containing header
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, l := range fi.loops {
		if l.parent != nil {
			l.parent.children = append(l.parent.children, l)
		}
		for b := range l.blocks {
			if o := fi.inner[b]; o == nil || len(l.blocks) < len(o.blocks) {
				fi.inner[b] = l
			}
		}
	}
	x.liveness(fi)
	x.infos[fn] = fi
	return fi
}

func (x *Exec) liveness(fi *FnInfo) {
	fi.liveIn = map[*ssa.BasicBlock]map[int]bool{}
	use := map[*ssa.BasicBlock]map[int]bool{}
	def := map[*ssa.BasicBlock]map[int]bool{}
	phiUse := map[*ssa.BasicBlock]map[int]bool{} // uses at the end of pred
	for _, b := range fi.rpo {
		use[b], def[b] = map[int]bool{}, map[int]bool{}
		if phiUse[b] == nil {
			phiUse[b] = map[int]bool{}
		}
		fi.liveIn[b] = map[int]bool{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					if k, ok := fi.idx[e]; ok {
						p := b.Preds[i]
						if phiUse[p] == nil {
							phiUse[p] = map[int]bool{}
						}
						phiUse[p][k] = true
					}
				}
				def[b][fi.idx[ph]] = true
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := fi.idx[*op]; ok && !def[b][k] {
					use[b][k] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b][fi.idx[v]] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			in := fi.liveIn[b]
			add := func(k int) {
				if !in[k] {
					in[k] = true
					changed = true
				}
			}
			for k := range use[b] {
				add(k)
			}
			for k := range phiUse[b] {
				if !def[b][k] {
					add(k)
				}
			}
			for _, s := range b.Succs {
				for k := range fi.liveIn[s] {
					if !def[b][k] {
						// phis of s are defined in s, so never in liveIn(s) as inputs
						add(k)
					}
				}
			}
			for _, instr := range b.Instrs {
				if ph, ok := instr.(*ssa.Phi); ok {
					// phi results count as live-in so that merging keeps them
					add(fi.idx[ph])
				} else {
					break
				}
			}
		}
	}
}

func fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/zellyn/diskii/", "")
	return s
}

// ---- executor

type Obligation struct {
	Kind   string
	Label  string
	Fn     string
	Pos    string
	pc     *PC
	goal   *Term
	extra  []*Term
	Status string // discharged, failed, unknown
	By     string
	Took   float64
	model  map[*Term]uint64
	inst   *Inst
}

// Inst is one case of a harness's case distinction.
type Inst struct{ inputs []*Input }

type Tracker struct {
	writes map[*Obj]bool
	paths  map[*Obj]map[string]bool
}

func (t *Tracker) note(o *Obj, path string) {
	m := t.paths[o]
	if m == nil {
		m = map[string]bool{}
		t.paths[o] = m
	}
	m[path] = true
}

type Exec struct {
	prog                *ssa.Program
	infos               map[*ssa.Function]*FnInfo
	nobj                int
	objs                []*Obj
	track               *Tracker
	globals             map[*ssa.Global]*Obj
	obls                []*Obligation
	nTriv               int
	cut                 map[string]bool // loops to cut
	quiet               int             // >0: do not record obligations (dry runs)
	inits               bool            // running initialisation
	depth               int
	steps               int
	maxStep             int
	inputs              []*Input
	memo                map[string]Value
	funcs               map[string]bool // functions executed symbolically
	assumed             map[string]bool // trusted models used
	covers              []*Cover
	cutRec              []*loopRec
	unroll              int
	curFn               []*ssa.Function
	contracts           map[*ssa.Function]*ssa.Function
	noContract          map[*ssa.Function]bool
	subsumed            map[string]int
	loopsCut            map[string]int
	cutFn, opaqueF      map[string]bool
	opaqueMax           map[string]int64
	paired              map[string]int             // loops coupled (1), or how often that failed (negative)
	given               *[]invT                    // where to put the invariants a contract gives
	widened             map[string]map[string]bool // by loop: what changes in it
	opaqueN             map[string]int
	alone               int // > 0 while a loop is looked at by itself
	logf                func(string, ...interface{})
	harness             *Harness
	loopInvs            map[*ssa.Function]map[*ssa.BasicBlock][]*FuncV
	deadline            func() bool
	loopNotes           []string
	drawn               map[string]bool
	inst                *Inst
	instTag             string
	nChoose             int
	fixed, taken, arity []int // case distinction (verifrt.Choose)
	fs                  []*fsEntry
	stdin, stdout       *fsEntry
	handles             map[*Obj]*fsHandle
	cleaned             map[string]*StrV
	opaqueArr           map[*FArr]bool
}

type Input struct {
	Name string
	Kind string
	t    *Term
	arr  *FArr
	n    *Term
}

type Cover struct {
	label string
	pc    *PC
	ok    bool
}

func newExec(prog *ssa.Program) *Exec {
	return &Exec{prog: prog, infos: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]*Obj{}, cut: map[string]bool{},
		memo: map[string]Value{}, funcs: map[string]bool{}, assumed: map[string]bool{}, maxStep: 40_000_000, unroll: 5000,
		contracts: map[*ssa.Function]*ssa.Function{}, noContract: map[*ssa.Function]bool{}, subsumed: map[string]int{}, loopsCut: map[string]int{}, cutFn: map[string]bool{}, paired: map[string]int{}, opaqueN: map[string]int{}, widened: map[string]map[string]bool{}, opaqueF: map[string]bool{}, opaqueMax: map[string]int64{},
		drawn:   map[string]bool{},
		handles: map[*Obj]*fsHandle{}, cleaned: map[string]*StrV{}, opaqueArr: map[*FArr]bool{},
		loopInvs: map[*ssa.Function]map[*ssa.BasicBlock][]*FuncV{},
		logf:     func(string, ...interface{}) {}}
}

type needCut struct{ loop *Loop }

type Frame struct {
	fi    *FnInfo
	rets  []*State
	binds []Value
}

// oblige records that goal must hold in st; afterwards goal may be used as a fact.
func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos) bool {
	g := st.decide(goal)
	if g.isTrue() {
		if x.quiet == 0 {
			x.nTriv++
		}
		return true
	}
	if x.inits {
		panic(unsupported{"obligation during init: " + kind + " " + label})
	}
	if x.quiet == 0 {
		o := &Obligation{Kind: kind, Label: label, pc: st.pc, goal: g, Pos: x.posStr(pos), inst: x.inst}
		if len(x.curFn) > 0 {
			o.Fn = fnName(x.curFn[len(x.curFn)-1])
		}
		x.obls = append(x.obls, o)
	}
	if g.isFalse() {
		return false
	}
	st.note(g)
	return true
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := x.prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// callMulti executes fn with args and returns the possible outcomes.
func (x *Exec) callMulti(fn *ssa.Function, args []Value, binds []Value, st *State) []ret {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn.RelString(nil))
	}
	if x.depth > 60 {
		unsup("call depth exceeded at %s", fnName(fn))
	}
	x.depth++
	x.curFn = append(x.curFn, fn)
	defer func() { x.depth--; x.curFn = x.curFn[:len(x.curFn)-1] }()
	if !x.inits {
		x.funcs[fnName(fn)] = true
	}
	fi := x.info(fn)
	saved := st.regs
	savedFn := st.fn
	ns := st.clone()
	ns.fn = fi
	ns.regs = make([]Value, fi.n)
	for i, p := range fn.Params {
		ns.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		ns.regs[fi.idx[p]] = binds[i]
	}
	fr := &Frame{fi: fi, binds: binds}
	x.runRegion(fr, nil, fn.Blocks[0], ns)
	// results that differ in success or verdict are kept apart
	var classes [4][]*State
	for _, r := range fr.rets {
		k := retClass(r)
		classes[k] = append(classes[k], r)
	}
	var out []ret
	for _, c := range classes {
		if len(c) == 0 {
			continue
		}
		r := x.mergeAll(c)
		var res Value
		if len(r.regs) > 0 {
			res = r.regs[0]
		}
		r.regs = append([]Value(nil), saved...)
		r.fn = savedFn
		out = append(out, ret{r, res})
	}
	return out
}

type ret struct {
	st *State
	v  Value
}

func retClass(r *State) int {
	if len(r.regs) == 0 {
		return 0
	}
	v := r.regs[0]
	if tv, ok := v.(*TupleV); ok && len(tv.v) > 0 {
		v = tv.v[len(tv.v)-1]
	}
	var t *Term
	switch v := v.(type) {
	case *IfaceV:
		t = v.isnil
	case *Term:
		if v.w == 0 {
			t = v
		}
	}
	switch {
	case t == nil:
		return 0
	case t.isTrue():
		return 1
	case t.isFalse():
		return 2
	}
	return 3
}

// mergeRets joins the outcomes of a call into one.
func (x *Exec) mergeRets(rs []ret) (*State, Value) {
	if len(rs) == 0 {
		return nil, nil
	}
	if len(rs) == 1 {
		return rs[0].st, rs[0].v
	}
	var ss []*State
	for _, r := range rs {
		r.st.regs = append(append([]Value(nil), r.st.regs...), r.v)
		ss = append(ss, r.st)
	}
	m := x.mergeAll(ss)
	v := m.regs[len(m.regs)-1]
	m.regs = m.regs[:len(m.regs)-1]
	return m, v
}

func (x *Exec) callFn(fn *ssa.Function, args []Value, binds []Value, st *State) (*State, Value) {
	return x.mergeRets(x.callMulti(fn, args, binds, st))
}

func (x *Exec) mergeAll(ss []*State) *State {
	if len(ss) == 0 {
		return nil
	}
	// merge the most recently diverged first
	for len(ss) > 1 {
		// pick the pair of neighbours with the deepest common ancestor: states
		// arrive in execution order, so fold from the end.
		bi, bd := 0, -1
		if len(ss) <= 12 {
			for i := 0; i+1 < len(ss); i++ {
				d := commonDepth(ss[i].pc, ss[i+1].pc)
				if d > bd {
					bi, bd = i, d
				}
			}
		} else {
			bi = len(ss) - 2
		}
		m := x.mergeStates(ss[bi], ss[bi+1])
		ss = append(append(append([]*State(nil), ss[:bi]...), m), ss[bi+2:]...)
	}
	return ss[0]
}

func commonDepth(a, b *PC) int {
	for a.depth > b.depth {
		a = a.parent
	}
	for b.depth > a.depth {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a.depth
}

// runRegion executes the blocks of a loop body (or of the whole function)
// starting at start. Edges that leave the region and back edges to the
// region's header are returned.
func (x *Exec) runRegion(fr *Frame, region *Loop, start *ssa.BasicBlock, st *State) (exits, backs []edge) {
	fi := fr.fi
	pend := map[*ssa.BasicBlock][]*State{}
	pend[start] = []*State{st}
	deliver := func(e edge) {
		if region != nil {
			if e.to == region.header {
				backs = append(backs, e)
				return
			}
			if !region.blocks[e.to] {
				exits = append(exits, e)
				return
			}
		}
		x.phis(fi, e)
		pend[e.to] = append(pend[e.to], e.st)
	}
	first := true
	for _, b := range fi.rpo {
		if region != nil && !region.blocks[b] {
			continue
		}
		ss := pend[b]
		if len(ss) == 0 {
			continue
		}
		delete(pend, b)
		for _, s := range ss {
			x.dropDead(fi, b, s)
		}
		s := x.mergeAll(ss)
		if l := fi.head[b]; l != nil && !(first && b == start && region == l) {
			for _, e := range x.execLoop(fr, l, s) {
				deliver(e)
			}
			first = false
			continue
		}
		first = false
		for _, e := range x.execBlock(fr, b, s) {
			deliver(e)
		}
	}
	return
}

func (x *Exec) dropDead(fi *FnInfo, b *ssa.BasicBlock, s *State) {
	live := fi.liveIn[b]
	for i := range s.regs {
		if s.regs[i] != nil && !live[i] {
			s.regs[i] = nil
		}
	}
}

// phis assigns the phi registers of e.to for the edge e.
func (x *Exec) phis(fi *FnInfo, e edge) {
	pi := -1
	for i, p := range e.to.Preds {
		if p == e.from {
			pi = i
			break
		}
	}
	var vals []Value
	var ids []int
	for _, in := range e.to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(e.st, ph.Edges[pi]))
		ids = append(ids, fi.idx[ph])
	}
	for i := range ids {
		e.st.regs[ids[i]] = vals[i]
	}
}

// execBlock runs the non-phi instructions of b and returns the outgoing edges.
func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	return x.execFrom(fr, b, st, 0)
}

func (x *Exec) execFrom(fr *Frame, b *ssa.BasicBlock, st *State, from int) []edge {
	for k := from; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		x.steps++
		if x.steps > x.maxStep {
			panic(budgetExceeded{"step budget exceeded in " + fnName(fr.fi.fn)})
		}
		if x.steps&1023 == 0 && x.deadline != nil && x.deadline() {
			panic(budgetExceeded{"time budget exceeded in " + fnName(fr.fi.fn)})
		}
		if debugTrace {
			fmt.Fprintf(os.Stderr, "%s%s: %v\n", strings.Repeat(" ", x.depth), fr.fi.fn.Name(), in)
		}
		switch in := in.(type) {
		case *ssa.If:
			c := x.guard(st, in, func() *Term { return x.term(st, in.Cond) })
			if c == nil {
				return nil
			}
			c = st.decide(c)
			if c.isTrue() {
				return []edge{{b, b.Succs[0], st}}
			}
			if c.isFalse() {
				return []edge{{b, b.Succs[1], st}}
			}
			s2 := st.clone()
			x.assumeIn(st, c)
			x.assumeIn(s2, mkNot(c))
			return []edge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var v Value
			if len(in.Results) == 1 {
				v = x.val(st, in.Results[0])
			} else if len(in.Results) > 1 {
				tv := &TupleV{}
				for _, r := range in.Results {
					tv.v = append(tv.v, x.val(st, r))
				}
				v = tv
			}
			st.regs = []Value{v}
			fr.rets = append(fr.rets, st)
			return nil
		case *ssa.Call:
			var rs []ret
			x.guard(st, in, func() *Term {
				rs = x.call(st, &in.Call, in)
				return tTrue
			})
			for i := range rs {
				if rs[i].v != nil {
					x.setReg(rs[i].st, in, rs[i].v)
				}
			}
			switch len(rs) {
			case 0:
				return nil
			case 1:
				st = rs[0].st
			default:
				var es []edge
				for _, r := range rs {
					es = append(es, x.execFrom(fr, b, r.st, k+1)...)
				}
				return es
			}
		case *ssa.Panic:
			x.oblige(st, "panic", "explicit panic unreachable", tFalse, in.Pos())
			return nil
		default:
			ok := false
			var dead bool
			x.guard(st, in, func() *Term {
				ns := x.execInstr(fr, in, st)
				if ns == nil {
					dead = true
				} else {
					st = ns
				}
				ok = true
				return tTrue
			})
			if !ok || dead {
				return nil
			}
		}
	}
	return nil
}

type budgetExceeded struct{ msg string }

var debugTrace = os.Getenv("GV_TRACE") != ""

// guard runs f; an unsupported construct becomes an obligation that the path
// is infeasible.
func (x *Exec) guard(st *State, in ssa.Instruction, f func() *Term) (r *Term) {
	d, nf, q, tr := x.depth, len(x.curFn), x.quiet, x.track
	pcAt := st.pc
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			if x.inits {
				panic(fmt.Sprintf("init: unsupported %s at %s", u.msg, x.posStr(in.Pos())))
			}
			x.depth, x.curFn, x.quiet, x.track = d, x.curFn[:nf], q, tr
			s2 := &State{pc: pcAt}
			x.oblige(s2, "unsupported", u.msg, tFalse, in.Pos())
			r = nil
		}
	}()
	return f()
}

// assumeIn adds c to the path condition and replaces registers that c fixes.
func (x *Exec) assumeIn(st *State, c *Term) {
	st.assume(c)
}

// ---- operands

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Function:
		return &FuncV{fn: v, isnil: tFalse}
	case *ssa.Builtin:
		return &OpaqueV{"builtin " + v.Name()}
	}
	i, ok := st.fn.idx[v]
	if !ok {
		unsup("value %v not in frame of %s", v, st.fn.fn)
	}
	r := st.regs[i]
	if r == nil {
		return &PoisonV{"undefined register " + v.Name()}
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if w, ok := scalarWidth(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		cv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(cv); ok {
			return mkConst(u, w)
		}
		i, _ := constant.Int64Val(cv)
		return mkConst(uint64(i), w)
	}
	if isString(t) {
		s := constant.StringVal(c.Value)
		return strConst(s)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return &OpaqueV{"float"}
	}
	unsup("constant of type %s", typeStr(t))
	return nil
}

func strConst(s string) *StrV {
	return &StrV{arr: mkFBytes([]byte(s)), off: k64(0), len: k64(int64(len(s)))}
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	o, ok := x.globals[g]
	et := under(g.Type()).(*types.Pointer).Elem()
	if !ok {
		o = x.newObj("global "+g.RelString(nil), et, false)
		o.global = true
		x.globals[g] = o
	}
	if st.mem.get(o.id) == nil {
		ns := &ObjState{leaves: map[string]Leaf{}}
		if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			name := g.Pkg.Pkg.Path() + "." + g.Name()
			var v Value = &OpaqueV{name}
			if isErrorType(et) {
				v = &IfaceV{isnil: tFalse, alts: []IfaceAlt{{cond: tTrue, val: &OpaqueV{name}}}}
			}
			if st, ok := under(et).(*types.Struct); ok && st.NumFields() == 0 {
				v = nil
			}
			if v != nil {
				ns.leaves[""] = Leaf{val: v}
			}
		}
		st.mem = st.mem.set(o.id, ns)
	}
	return &PtrV{obj: o, path: "", idx: k64(0), isnil: tFalse, et: et}
}

const modPath = "github.com/zellyn/diskii"

func (x *Exec) term(st *State, v ssa.Value) *Term { return asTerm(x.val(st, v)) }

func asTerm(v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *PoisonV:
		unsup("use of undefined value: %s", t.why)
	case *OpaqueV:
		unsup("use of opaque value: %s", t.what)
	}
	unsup("expected scalar, have %T", v)
	return nil
}

func asSlice(v Value) *SliceV {
	switch t := v.(type) {
	case *SliceV:
		return t
	case *PoisonV:
		unsup("use of undefined value: %s", t.why)
	}
	unsup("expected slice, have %T", v)
	return nil
}

func asStr(v Value) *StrV {
	switch t := v.(type) {
	case *StrV:
		return t
	case *PoisonV:
		unsup("use of undefined value: %s", t.why)
	}
	unsup("expected string, have %T", v)
	return nil
}

func asPtr(v Value) *PtrV {
	switch t := v.(type) {
	case *PtrV:
		return t
	case *PoisonV:
		unsup("use of undefined value: %s", t.why)
	case *OpaqueV:
		unsup("dereference of opaque value: %s", t.what)
	}
	unsup("expected pointer, have %T", v)
	return nil
}

func asIface(v Value) *IfaceV {
	switch t := v.(type) {
	case *IfaceV:
		return t
	case *PoisonV:
		unsup("use of undefined value: %s", t.why)
	case *OpaqueV:
		return &IfaceV{isnil: tFalse, alts: []IfaceAlt{{cond: tTrue, val: t}}}
	}
	unsup("expected interface, have %T", v)
	return nil
}

func asMap(v Value) *MapV {
	switch t := v.(type) {
	case *MapV:
		return t
	case *PoisonV:
		unsup("use of undefined value: %s", t.why)
	}
	unsup("expected map, have %T", v)
	return nil
}

func toInt(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return mkSExt(t, 64)
	}
	return mkZExt(t, 64)
}

func (x *Exec) setReg(st *State, v ssa.Value, val Value) {
	if t, ok := val.(*Term); ok && t.op == OIte {
		val = st.pick(t)
	}
	st.regs[st.fn.idx[v]] = val
}

// pick simplifies a conditional whose condition the path already decides.
func (st *State) pick(t *Term) *Term {
	for n := 0; t.op == OIte && n < 8; n++ {
		d := st.decide(t.a[0])
		if d.isTrue() {
			t = t.a[1]
		} else if d.isFalse() {
			t = t.a[2]
		} else {
			break
		}
	}
	return t
}

func (x *Exec) load(st *State, p *PtrV, pos token.Pos) Value {
	if p.obj == nil {
		x.oblige(st, "nil", "nil dereference", tFalse, pos)
		unsup("nil dereference")
	}
	x.oblige(st, "nil", "pointer is not nil", mkNot(p.isnil), pos)
	return st.loadAt(x, p.obj, p.path, p.idx, p.et)
}

func (x *Exec) store(st *State, p *PtrV, v Value, pos token.Pos) {
	if p.obj == nil {
		x.oblige(st, "nil", "nil dereference", tFalse, pos)
		unsup("nil dereference")
	}
	x.oblige(st, "nil", "pointer is not nil", mkNot(p.isnil), pos)
	st.storeAt(x, p.obj, p.path, p.idx, p.et, v)
}

func (x *Exec) execInstr(fr *Frame, in ssa.Instruction, st *State) *State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.Alloc:
		et := under(in.Type()).(*types.Pointer).Elem()
		o := x.newObj(in.Comment, et, false)
		st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{}})
		x.setReg(st, in, &PtrV{obj: o, idx: k64(0), isnil: tFalse, et: et})
	case *ssa.BinOp:
		x.setReg(st, in, x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.X.Type(), in.Y.Type(), in.Pos()))
	case *ssa.UnOp:
		x.setReg(st, in, x.unop(st, in))
	case *ssa.ChangeInterface:
		x.setReg(st, in, x.val(st, in.X))
	case *ssa.ChangeType:
		x.setReg(st, in, retype(x.val(st, in.X), in.Type()))
	case *ssa.Convert:
		x.setReg(st, in, x.convert(st, x.val(st, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.Extract:
		v := x.val(st, in.Tuple)
		tv, ok := v.(*TupleV)
		if !ok {
			unsup("extract from %T", v)
		}
		x.setReg(st, in, tv.v[in.Index])
	case *ssa.Field:
		s := under(in.X.Type()).(*types.Struct)
		f := s.Field(in.Field)
		v := x.val(st, in.X)
		switch a := v.(type) {
		case *AggV:
			x.setReg(st, in, x.aggField(a, f.Name(), f.Type()))
		case *PoisonV:
			x.setReg(st, in, a)
		default:
			unsup("field of %T", v)
		}
	case *ssa.FieldAddr:
		p := asPtr(x.val(st, in.X))
		s := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		f := s.Field(in.Field)
		if p.obj == nil {
			x.oblige(st, "nil", "nil dereference", tFalse, in.Pos())
			unsup("nil dereference")
		}
		x.oblige(st, "nil", "pointer is not nil", mkNot(p.isnil), in.Pos())
		x.setReg(st, in, &PtrV{obj: p.obj, path: p.path + "." + f.Name(), idx: p.idx, isnil: tFalse, et: f.Type()})
	case *ssa.Index:
		v := x.val(st, in.X)
		i := toInt(x.term(st, in.Index), in.Index.Type())
		switch a := v.(type) {
		case *StrV:
			x.bounds(st, i, a.len, "string index", in.Pos())
			x.setReg(st, in, sel(a.arr, mkAdd(a.off, i)))
		case *AggV:
			arr := under(in.X.Type()).(*types.Array)
			x.bounds(st, i, k64(arr.Len()), "array index", in.Pos())
			x.setReg(st, in, x.aggIndex(st, a, arr, i))
		default:
			unsup("index of %T", v)
		}
	case *ssa.IndexAddr:
		i := toInt(x.term(st, in.Index), in.Index.Type())
		v := x.val(st, in.X)
		switch a := v.(type) {
		case *SliceV:
			x.bounds(st, i, a.len, "slice index", in.Pos())
			if a.obj == nil {
				unsup("index of nil slice")
			}
			x.setReg(st, in, &PtrV{obj: a.obj, path: a.path, idx: mkAdd(a.off, i), isnil: tFalse, et: a.et})
		case *PtrV:
			arr := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			x.oblige(st, "nil", "pointer is not nil", mkNot(a.isnil), in.Pos())
			x.bounds(st, i, k64(arr.Len()), "array index", in.Pos())
			x.setReg(st, in, &PtrV{obj: a.obj, path: a.path + "[]", idx: mkAdd(mkMulC(a.idx, uint64(arr.Len())), i), isnil: tFalse, et: arr.Elem()})
		case *PoisonV:
			unsup("use of undefined value: %s", a.why)
		default:
			unsup("indexaddr of %T", v)
		}
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function), isnil: tFalse}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.val(st, b))
		}
		x.setReg(st, in, f)
	case *ssa.MakeInterface:
		v := x.val(st, in.X)
		x.setReg(st, in, &IfaceV{isnil: tFalse, alts: []IfaceAlt{{cond: tTrue, typ: in.X.Type(), val: v}}})
	case *ssa.MakeMap:
		mt := under(in.Type()).(*types.Map)
		o := x.newObj("map", mt.Elem(), false)
		o.isMap = true
		if b, ok := x.mapKeyBits(mt); ok && !x.mapIsAssoc(mt) {
			o.keyBits = b
		}
		os := &ObjState{leaves: map[string]Leaf{}}
		if w, ok := scalarWidth(mt.Elem()); ok && w == 0 {
			// what absent keys have here does not matter: true, so that a map
			// used as a set is a set
			os.leaves["V"] = Leaf{arr: mkFConst(tTrue)}
		}
		st.mem = st.mem.set(o.id, os)
		x.setReg(st, in, &MapV{obj: o, isnil: tFalse})
	case *ssa.MakeSlice:
		n := toInt(x.term(st, in.Len), in.Len.Type())
		c := toInt(x.term(st, in.Cap), in.Cap.Type())
		x.oblige(st, "make", "make length in range", mkAnd(mkSle(k64(0), n), mkSle(n, k64(1<<40))), in.Pos())
		if c != n {
			x.oblige(st, "make", "make capacity in range", mkAnd(mkSle(n, c), mkSle(c, k64(1<<40))), in.Pos())
		}
		et := under(in.Type()).(*types.Slice).Elem()
		x.setReg(st, in, x.newSlice(st, "make", et, n, c))
	case *ssa.MapUpdate:
		m := asMap(x.val(st, in.Map))
		x.oblige(st, "nil", "map is not nil", mkNot(m.isnil), in.Pos())
		mt := under(in.Map.Type()).(*types.Map)
		x.mapSet(st, m, mt, x.val(st, in.Key), x.val(st, in.Value))
	case *ssa.Range:
		x.setReg(st, in, x.rangeStart(st, in))
	case *ssa.Next:
		ns := x.rangeNext(st, in)
		if ns == nil {
			return nil
		}
		st = ns
	case *ssa.RunDefers:
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.SliceToArrayPointer:
		s := asSlice(x.val(st, in.X))
		at := under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array)
		x.oblige(st, "bounds", "slice long enough for array conversion", mkSle(k64(at.Len()), s.len), in.Pos())
		if s.path != "[]" || s.obj == nil || !s.obj.isArr {
			unsup("slice to array pointer")
		}
		unsup("slice to array pointer")
	case *ssa.Store:
		p := asPtr(x.val(st, in.Addr))
		x.store(st, p, x.val(st, in.Val), in.Pos())
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	default:
		unsup("instruction %T", in)
	}
	return st
}

func retype(v Value, t types.Type) Value {
	switch a := v.(type) {
	case *AggV:
		return &AggV{typ: t, leaves: a.leaves}
	case *SliceV:
		if s, ok := under(t).(*types.Slice); ok {
			r := *a
			r.et = s.Elem()
			return &r
		}
	case *PtrV:
		if p, ok := under(t).(*types.Pointer); ok {
			r := *a
			r.et = p.Elem()
			return &r
		}
	}
	return v
}

func (x *Exec) newSlice(st *State, name string, et types.Type, n, c *Term) *SliceV {
	o := x.newObj(name, et, true)
	o.whole = n
	st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{}})
	return &SliceV{obj: o, path: "[]", off: k64(0), len: n, cap: c, isnil: tFalse, et: et}
}

func (x *Exec) bounds(st *State, i, n *Term, what string, pos token.Pos) {
	x.oblige(st, "bounds", what+" in range", mkAnd(mkSle(k64(0), i), mkSlt(i, n)), pos)
}

func (x *Exec) aggIndex(st *State, a *AggV, arr *types.Array, i *Term) Value {
	o := st.aggToObj(x, a)
	return st.loadAt(x, o, "[]", i, arr.Elem())
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Value {
	switch in.Op {
	case token.MUL:
		v := x.val(st, in.X)
		if g, ok := in.X.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			p := asPtr(v)
			if l, ok := st.ostate(p.obj).leaves[""]; ok {
				return l.val
			}
		}
		return x.load(st, asPtr(v), in.Pos())
	case token.NOT:
		return mkNot(x.term(st, in.X))
	case token.SUB:
		return mkNeg(x.term(st, in.X))
	case token.XOR:
		return mkBNot(x.term(st, in.X))
	}
	unsup("unary %v", in.Op)
	return nil
}

func (x *Exec) shiftCount(st *State, b *Term, bt types.Type, w uint8, pos token.Pos) *Term {
	if isSigned(bt) {
		x.oblige(st, "shift", "shift count is not negative", mkNot(mkSlt(b, zeroTerm(b.w))), pos)
	}
	if b.w == w {
		return b
	}
	if b.w < w {
		return mkZExt(b, w)
	}
	if b.uhi <= mask(w) {
		return mkExtract(b, 0, w)
	}
	return mkIte(mkUlt(b, mkConst(uint64(w), b.w)), mkExtract(b, 0, w), mkConst(uint64(w), w))
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, at, bt types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return x.equal(st, a, b, at, pos)
	case token.NEQ:
		return mkNot(x.equal(st, a, b, at, pos))
	}
	if _, ok := a.(*StrV); ok {
		return x.strBin(st, op, asStr(a), asStr(b))
	}
	p, q := asTerm(a), asTerm(b)
	signed := isSigned(at)
	switch op {
	case token.ADD:
		return mkAdd(p, q)
	case token.SUB:
		return mkSub(p, q)
	case token.MUL:
		return mkMul(p, q)
	case token.QUO, token.REM:
		x.oblige(st, "div", "divisor is not zero", mkNot(mkEq(q, zeroTerm(q.w))), pos)
		if signed {
			if op == token.QUO {
				return mkSDiv(p, q)
			}
			return mkSRem(p, q)
		}
		if op == token.QUO {
			return mkUDiv(p, q)
		}
		return mkURem(p, q)
	case token.AND:
		return mkBAnd(p, q)
	case token.OR:
		return mkBOr(p, q)
	case token.XOR:
		return mkBXor(p, q)
	case token.AND_NOT:
		return mkBAnd(p, mkBNot(q))
	case token.SHL:
		return mkShl(p, x.shiftCount(st, q, bt, p.w, pos))
	case token.SHR:
		c := x.shiftCount(st, q, bt, p.w, pos)
		if signed {
			return mkAshr(p, c)
		}
		return mkLshr(p, c)
	case token.LSS:
		if signed {
			return mkSlt(p, q)
		}
		return mkUlt(p, q)
	case token.LEQ:
		if signed {
			return mkSle(p, q)
		}
		return mkUle(p, q)
	case token.GTR:
		if signed {
			return mkSlt(q, p)
		}
		return mkUlt(q, p)
	case token.GEQ:
		if signed {
			return mkSle(q, p)
		}
		return mkUle(q, p)
	}
	unsup("binary %v", op)
	return nil
}

func (x *Exec) equal(st *State, a, b Value, t types.Type, pos token.Pos) *Term {
	if pv, ok := a.(*PoisonV); ok {
		unsup("comparison of undefined value: %s", pv.why)
	}
	if pv, ok := b.(*PoisonV); ok {
		unsup("comparison of undefined value: %s", pv.why)
	}
	switch p := a.(type) {
	case *Term:
		q := asTerm(b)
		if p.w == 0 {
			return mkIff(p, q)
		}
		return mkEq(p, q)
	case *StrV:
		return x.strEq(st, p, asStr(b))
	case *SliceV:
		q := asSlice(b)
		if q.obj == nil && q.isnil.isTrue() {
			return p.isnil
		}
		if p.obj == nil && p.isnil.isTrue() {
			return q.isnil
		}
	case *MapV:
		q := asMap(b)
		if q.obj == nil {
			return p.isnil
		}
		if p.obj == nil {
			return q.isnil
		}
	case *FuncV:
		q := b.(*FuncV)
		if q.fn == nil {
			return p.isnil
		}
		if p.fn == nil {
			return q.isnil
		}
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			unsup("pointer comparison")
		}
		if q.obj == nil && q.isnil.isTrue() {
			return p.isnil
		}
		if p.obj == nil && p.isnil.isTrue() {
			return q.isnil
		}
		if p.obj == q.obj && p.path == q.path {
			return mkOr(mkAnd(p.isnil, q.isnil), mkAnd(mkNot(p.isnil), mkNot(q.isnil), mkEq(p.idx, q.idx)))
		}
	case *IfaceV:
		q := asIface(b)
		if len(q.alts) == 0 {
			return p.isnil
		}
		if len(p.alts) == 0 {
			return q.isnil
		}
		// errors.Is style identity of opaque globals
		if len(p.alts) == 1 && len(q.alts) == 1 {
			u, ok1 := p.alts[0].val.(*OpaqueV)
			v, ok2 := q.alts[0].val.(*OpaqueV)
			if ok1 && ok2 && u.what == v.what && u.what != "error" {
				return mkOr(mkAnd(p.isnil, q.isnil), mkAnd(mkNot(p.isnil), mkNot(q.isnil)))
			}
		}
		var r = []*Term{mkAnd(p.isnil, q.isnil)}
		for _, u := range p.alts {
			for _, v := range q.alts {
				if u.typ == nil || v.typ == nil {
					unsup("comparison of opaque interface values")
				}
				if types.Identical(u.typ, v.typ) {
					r = append(r, mkAnd(u.cond, v.cond, x.equal(st, u.val, v.val, u.typ, pos)))
				}
			}
		}
		return mkOr(r...)
	case *AggV:
		q, ok := b.(*AggV)
		if !ok {
			break
		}
		var cs []*Term
		for _, l := range leavesOf(t, false) {
			u, v := p.leaves[l.path], q.leaves[l.path]
			if l.dim {
				if l.size > 4096 {
					unsup("comparison of large arrays")
				}
				for i := int64(0); i < l.size; i++ {
					e1 := sel(u.arr, mkAddC(u.off, i))
					e2 := sel(v.arr, mkAddC(v.off, i))
					if l.w == 0 {
						cs = append(cs, mkIff(e1, e2))
					} else {
						cs = append(cs, mkEq(e1, e2))
					}
				}
			} else {
				cs = append(cs, x.equal(st, u.val, v.val, l.typ, pos))
			}
		}
		return mkAnd(cs...)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	v := x.val(st, in.X)
	get := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return toInt(x.term(st, o), o.Type())
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	switch a := v.(type) {
	case *StrV:
		if lo == nil {
			lo = k64(0)
		}
		if hi == nil {
			hi = a.len
		}
		x.oblige(st, "bounds", "string slice in range", mkAnd(mkSle(k64(0), lo), mkSle(lo, hi), mkSle(hi, a.len)), in.Pos())
		x.setReg(st, in, &StrV{arr: a.arr, off: mkAdd(a.off, lo), len: mkSub(hi, lo)})
		return
	case *SliceV:
		if lo == nil {
			lo = k64(0)
		}
		if hi == nil {
			hi = a.len
		}
		c := a.cap
		if mx != nil {
			x.oblige(st, "bounds", "slice capacity in range", mkAnd(mkSle(hi, mx), mkSle(mx, a.cap)), in.Pos())
			c = mx
		}
		x.oblige(st, "bounds", "slice in range", mkAnd(mkSle(k64(0), lo), mkSle(lo, hi), mkSle(hi, c)), in.Pos())
		if a.obj != nil && !st.decide(mkSle(hi, a.len)).isTrue() {
			a.obj.whole = nil // a view may extend past the original length
		}
		r := &SliceV{obj: a.obj, path: a.path, off: mkAdd(a.off, lo), len: mkSub(hi, lo), cap: mkSub(c, lo), isnil: a.isnil, et: a.et}
		x.setReg(st, in, r)
		return
	case *PtrV:
		arr := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := k64(arr.Len())
		if lo == nil {
			lo = k64(0)
		}
		if hi == nil {
			hi = n
		}
		x.oblige(st, "nil", "pointer is not nil", mkNot(a.isnil), in.Pos())
		x.oblige(st, "bounds", "slice in range", mkAnd(mkSle(k64(0), lo), mkSle(lo, hi), mkSle(hi, n)), in.Pos())
		x.setReg(st, in, &SliceV{obj: a.obj, path: a.path + "[]", off: mkAdd(mkMulC(a.idx, uint64(arr.Len())), lo), len: mkSub(hi, lo), cap: mkSub(n, lo), isnil: tFalse, et: arr.Elem()})
		return
	case *PoisonV:
		unsup("use of undefined value: %s", a.why)
	}
	unsup("slice of %T", v)
}

// ---- maps

func (x *Exec) mapKeyBits(mt *types.Map) (int, bool) {
	n := 0
	for _, l := range leavesOf(mt.Key(), false) {
		if l.dim || l.w == 255 {
			return 0, false
		}
		w := int(l.w)
		if w == 0 {
			w = 1
		}
		n += w
	}
	return n, n <= 64
}

func (x *Exec) mapKey(mt *types.Map, k Value) *Term {
	switch v := k.(type) {
	case *Term:
		if v.w == 0 {
			return mkIte(v, k64(1), k64(0))
		}
		return mkZExt(v, 64)
	case *AggV:
		r := k64(0)
		for _, l := range leavesOf(mt.Key(), false) {
			t := asTerm(v.leaves[l.path].val)
			if t.w == 0 {
				t = mkIte(t, mkConst(1, 8), mkConst(0, 8))
			}
			r = mkAdd(mkMulC(r, uint64(1)<<t.w), mkZExt(t, 64))
		}
		return r
	}
	unsup("map key %T", k)
	return nil
}

func (x *Exec) mapIsAssoc(mt *types.Map) bool { return isString(mt.Key()) }

func (x *Exec) mapChk(mt *types.Map, key *Term) {
	_, ok := x.mapKeyBits(mt)
	if !ok {
		unsup("map key type %s", typeStr(mt.Key()))
	}
	for _, l := range leavesOf(mt.Elem(), true) {
		if l.size > 1 && key.uhi >= 1<<24 {
			unsup("map with wide keys and aggregate values: key %s", dumpTerm(key, 3))
		}
	}
}

func (x *Exec) mapSet(st *State, m *MapV, mt *types.Map, k, v Value) {
	if x.mapIsAssoc(mt) {
		s := st.writable(x, m.obj)
		ks := asStr(k)
		for i, e := range s.assoc {
			eq := x.strEq(st, e.key, ks)
			if eq.isTrue() {
				s.assoc[i] = assocEnt{e.key, tTrue, v}
				return
			}
			if !eq.isFalse() {
				// may overwrite: remove then add
				s.assoc[i] = assocEnt{e.key, mkAnd(e.cond, mkNot(eq)), e.val}
			}
		}
		s.assoc = append(s.assoc, assocEnt{ks, tTrue, v})
		return
	}
	key := x.mapKey(mt, k)
	x.mapChk(mt, key)
	s := st.writable(x, m.obj)
	has := st.leafArr(s, "#has", 0)
	was := sel(has, key)
	n := x.mapCount(s)
	s.leaves["#has"] = Leaf{arr: mkFStore(has, key, tTrue)}
	s.leaves["#n"] = Leaf{val: mkIte(was, n, mkAddC(n, 1))}
	if x.track != nil {
		x.track.note(m.obj, "#has")
		x.track.note(m.obj, "#n")
	}
	st.storeInto(x, m.obj, s, "V", key, mt.Elem(), v)
}

func (x *Exec) mapCount(s *ObjState) *Term {
	if l, ok := s.leaves["#n"]; ok {
		return l.val.(*Term)
	}
	return k64(0)
}

func (x *Exec) mapGet(st *State, m *MapV, mt *types.Map, k Value) (Value, *Term) {
	if m.obj == nil {
		return zeroValue(mt.Elem()), tFalse
	}
	if x.mapIsAssoc(mt) {
		s := st.readable(m.obj)
		ks := asStr(k)
		var res Value = zeroValue(mt.Elem())
		ok := tFalse
		for i := range s.assoc {
			e := s.assoc[i]
			c := mkAnd(e.cond, x.strEq(st, e.key, ks))
			if c.isFalse() {
				continue
			}
			res = x.mergeValue(c, st, e.val, st, res, st)
			ok = mkOr(ok, c)
		}
		return res, ok
	}
	key := x.mapKey(mt, k)
	s := st.readable(m.obj)
	if _, ok := x.mapKeyBits(mt); ok {
		has := st.decide(sel(st.leafArr(s, "#has", 0), key))
		if os.Getenv("GV_MAP") != "" {
			fmt.Fprintf(os.Stderr, "has %s key %d..%d %d..%d\n", dumpTerm(has, 5), key.ulo, key.uhi, key.slo, key.shi)
		}
		if has.isFalse() || !has.isTrue() && key.uhi >= 1<<24 && shows(st, mkNot(has)) {
			return zeroValue(mt.Elem()), tFalse
		}
	}
	x.mapChk(mt, key)
	has := mkAnd(mkNot(m.isnil), sel(st.leafArr(s, "#has", 0), key))
	if has.isFalse() {
		return zeroValue(mt.Elem()), tFalse
	}
	v := st.loadAt(x, m.obj, "V", key, mt.Elem())
	lits := m.isnil.isFalse() // absent keys have zero entries in a table of constants
	for p, l := range s.leaves {
		if strings.HasPrefix(p, "V") && (l.arr == nil || l.arr.op != FLit) {
			lits = false
		}
	}
	if has.isTrue() || lits {
		return v, has
	}
	return x.mergeValue(has, st, v, st, zeroValue(mt.Elem()), st), has
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	v := x.val(st, in.X)
	if s, ok := v.(*StrV); ok {
		i := toInt(x.term(st, in.Index), in.Index.Type())
		x.bounds(st, i, s.len, "string index", in.Pos())
		x.setReg(st, in, sel(s.arr, mkAdd(s.off, i)))
		return
	}
	m := asMap(v)
	mt := under(in.X.Type()).(*types.Map)
	r, ok := x.mapGet(st, m, mt, x.val(st, in.Index))
	if in.CommaOk {
		x.setReg(st, in, &TupleV{v: []Value{r, ok}})
	} else {
		x.setReg(st, in, r)
	}
}

// ---- type assertions

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	iv := asIface(x.val(st, in.X))
	ok := tFalse
	var res Value
	if ti, isI := under(in.AssertedType).(*types.Interface); isI {
		r := &IfaceV{}
		for _, a := range iv.alts {
			if a.typ == nil {
				// opaque standard library errors implement only error
				if ov, o := a.val.(*OpaqueV); o && !isErrorType(in.AssertedType) && (ov.what == "error" || strings.HasPrefix(ov.what, "io/fs.") || strings.HasPrefix(ov.what, "fs:")) {
					continue
				}
				if isErrorType(in.AssertedType) {
					r.alts = append(r.alts, a)
					ok = mkOr(ok, a.cond)
					continue
				}
				unsup("type assertion on opaque value")
			}
			if types.Implements(a.typ, ti) {
				r.alts = append(r.alts, a)
				ok = mkOr(ok, mkAnd(mkNot(iv.isnil), a.cond))
			}
		}
		r.isnil = mkNot(ok)
		res = r
	} else {
		for _, a := range iv.alts {
			if a.typ != nil && types.Identical(a.typ, in.AssertedType) {
				c := mkAnd(mkNot(iv.isnil), a.cond)
				if res == nil {
					res = a.val
				} else {
					res = x.mergeValue(c, st, a.val, st, res, st)
				}
				ok = mkOr(ok, c)
			} else if a.typ == nil {
				if ov, o := a.val.(*OpaqueV); !o || ov.what != "error" {
					unsup("type assertion on opaque value")
				}
			}
		}
		z := zeroValue(in.AssertedType)
		if res == nil {
			res = z
		} else if in.CommaOk {
			res = x.mergeValue(ok, st, res, st, z, st)
		}
	}
	if in.CommaOk {
		x.setReg(st, in, &TupleV{v: []Value{res, ok}})
		return
	}
	x.oblige(st, "type", "type assertion holds", ok, in.Pos())
	x.setReg(st, in, res)
}

// ---- calls

func (x *Exec) call(st *State, c *ssa.CallCommon, in *ssa.Call) []ret {
	pos := in.Pos()
	if c.IsInvoke() {
		iv := asIface(x.val(st, c.Value))
		var args []Value
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
		x.oblige(st, "nil", "interface is not nil", mkNot(iv.isnil), pos)
		return x.invoke(st, iv, c.Method, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return one(x.builtin(st, b.Name(), c, in))
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			fv := x.val(st, mc).(*FuncV)
			binds = fv.binds
		}
		return x.callStatic(st, fn, args, binds, in)
	}
	fv, ok := x.val(st, c.Value).(*FuncV)
	if !ok || fv.fn == nil {
		unsup("call of unknown function value")
	}
	x.oblige(st, "nil", "function is not nil", mkNot(fv.isnil), pos)
	return x.callStatic(st, fv.fn, args, fv.binds, in)
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args, binds []Value, in *ssa.Call) []ret {
	if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !x.inits {
		pos := token.NoPos
		if in != nil {
			pos = in.Pos()
		}
		if rs, ok := x.fsCall(st, fn, args, pos); ok {
			x.assumed["model of "+fn.RelString(nil)] = true
			return rs
		}
	}
	if ns, v, ok := x.intrinsic(st, fn, args, in); ok {
		return one(ns, v)
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Parent() != nil {
		pkg = fn.Parent().Pkg
	}
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if rs, ok := x.regexpCall(st, fn, args); ok {
		x.assumed["model of "+fn.RelString(nil)] = true
		return rs
	}
	if pkg != nil && !strings.HasPrefix(pkg.Pkg.Path(), modPath) {
		unsup("call of %s", fn.RelString(nil))
	}
	if x.opaqueF[fn.RelString(nil)] || x.opaqueF[strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")] {
		if r := fn.Signature.Results(); r.Len() != 1 || !isString(r.At(0).Type()) {
			return one(st, x.opaqueCall(st, fn, args))
		}
		return one(st, x.opaqueText(st, fn.RelString(nil), args))
	}
	if cf := x.contracts[fn]; cf != nil && !x.noContract[fn] {
		return x.callMulti(cf, args, nil, st)
	}
	return x.callMulti(fn, args, binds, st)
}

func (x *Exec) invoke(st *State, iv *IfaceV, m *types.Func, args []Value, pos token.Pos) []ret {
	var outs []ret
	for i, a := range iv.alts {
		c := st.decide(a.cond)
		if c.isFalse() {
			continue
		}
		s := st
		last := i == len(iv.alts)-1 && len(outs) == 0
		if !last || !c.isTrue() {
			s = st.clone()
			if !c.isTrue() {
				x.assumeIn(s, c)
			}
		}
		if a.typ == nil {
			ov, _ := a.val.(*OpaqueV)
			if ov != nil && m.Name() == "Error" {
				x.assumed["(error).Error returns some string"] = true
				outs = append(outs, ret{s, x.opaqueStr("errmsg:" + ov.what)})
				continue
			}
			unsup("method call %s on opaque value", m.Name())
		}
		fn := x.prog.LookupMethod(a.typ, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s not found on %s", m.Name(), typeStr(a.typ))
		}
		outs = append(outs, x.callStatic(s, fn, append([]Value{a.val}, args...), nil, nil)...)
	}
	return outs
}

func one(st *State, v Value) []ret {
	if st == nil {
		return nil
	}
	return []ret{{st, v}}
}

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, in *ssa.Call) (*State, Value) {
	arg := func(i int) Value { return x.val(st, c.Args[i]) }
	switch name {
	case "len":
		switch a := arg(0).(type) {
		case *SliceV:
			return st, a.len
		case *StrV:
			return st, a.len
		case *MapV:
			if a.obj == nil {
				return st, k64(0)
			}
			s := st.readable(a.obj)
			if len(s.assoc) > 0 || x.mapIsAssoc(under(c.Args[0].Type()).(*types.Map)) {
				r := k64(0)
				for _, e := range s.assoc {
					r = mkAdd(r, mkIte(e.cond, k64(1), k64(0)))
				}
				return st, r
			}
			return st, mkIte(a.isnil, k64(0), x.mapCount(s))
		case *AggV:
			return st, k64(under(c.Args[0].Type()).(*types.Array).Len())
		case *PtrV:
			return st, k64(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		case *PoisonV:
			unsup("use of undefined value: %s", a.why)
		}
	case "cap":
		switch a := arg(0).(type) {
		case *AggV:
			return st, k64(under(c.Args[0].Type()).(*types.Array).Len())
		case *SliceV:
			_ = a
		}
		unsup("cap()")
	case "append":
		return st, x.doAppend(st, asSlice(arg(0)), arg(1), in.Pos())
	case "copy":
		return st, x.doCopy(st, asSlice(arg(0)), arg(1))
	case "delete":
		m := asMap(arg(0))
		mt := under(c.Args[0].Type()).(*types.Map)
		if m.obj == nil {
			return st, nil
		}
		if x.mapIsAssoc(mt) {
			s := st.writable(x, m.obj)
			ks := asStr(arg(1))
			for i, e := range s.assoc {
				eq := x.strEq(st, e.key, ks)
				s.assoc[i] = assocEnt{e.key, mkAnd(e.cond, mkNot(eq)), e.val}
			}
			return st, nil
		}
		key := x.mapKey(mt, arg(1))
		s := st.writable(x, m.obj)
		has := st.leafArr(s, "#has", 0)
		was := sel(has, key)
		n := x.mapCount(s)
		s.leaves["#has"] = Leaf{arr: mkFStore(has, key, tFalse)}
		s.leaves["#n"] = Leaf{val: mkIte(was, mkAddC(n, -1), n)}
		if x.track != nil {
			x.track.note(m.obj, "#has")
			x.track.note(m.obj, "#n")
		}
		return st, nil
	case "min", "max":
		r := asTerm(arg(0))
		for i := 1; i < len(c.Args); i++ {
			b := asTerm(arg(i))
			var lt *Term
			if isSigned(c.Args[0].Type()) {
				lt = mkSlt(b, r)
			} else {
				lt = mkUlt(b, r)
			}
			if name == "max" {
				lt = mkNot(lt)
			}
			r = mkIte(lt, b, r)
		}
		return st, r
	case "ssa:wrapnilchk":
		p := asPtr(arg(0))
		x.oblige(st, "nil", "pointer is not nil", mkNot(p.isnil), in.Pos())
		return st, p
	case "print", "println":
		return st, nil
	}
	unsup("builtin %s", name)
	return nil, nil
}

// taintOthers marks every other member of o's alias group unreadable.
func (x *Exec) taintObj(st *State, o *Obj, why string) {
	s := st.ostate(o)
	if s.tainted == "" {
		s = s.clone()
		s.tainted = why
		st.mem = st.mem.set(o.id, s)
	}
}

func (x *Exec) doAppend(st *State, a *SliceV, bv Value, pos token.Pos) Value {
	var n *Term
	var bs *SliceV
	var str *StrV
	switch b := bv.(type) {
	case *SliceV:
		bs = b
		n = b.len
	case *StrV:
		str = b
		n = b.len
	case *PoisonV:
		unsup("use of undefined value: %s", b.why)
	default:
		unsup("append of %T", bv)
	}
	if n.isConst() && n.v == 0 {
		return a
	}
	nl := mkAdd(a.len, n)
	// lengths of real slices stay far below 2^40: memory bound
	x.assumed["slice lengths stay below 2^40 (memory bound)"] = true
	o := x.newObj("append", a.et, true)
	ns := &ObjState{leaves: map[string]Leaf{}}
	var as *ObjState
	if a.obj != nil {
		as = st.readable(a.obj)
	}
	var bst *ObjState
	if bs != nil && bs.obj != nil {
		bst = st.readable(bs.obj)
	}
	for _, l := range leavesOf(a.et, true) {
		sz := uint64(l.size)
		if l.cells {
			if !a.len.isConst() || !n.isConst() || !a.off.isConst() || !bs.off.isConst() {
				unsup("append of symbolic length to slice of %s", typeStr(a.et))
			}
			cells := map[int64]Value{}
			for i := int64(0); i < int64(a.len.v); i++ {
				cells[i] = st.loadAt(x, a.obj, a.path+l.path, mkAddC(a.off, i), l.typ)
			}
			for i := int64(0); i < int64(n.v); i++ {
				cells[int64(a.len.v)+i] = st.loadAt(x, bs.obj, bs.path+l.path, mkAddC(bs.off, i), l.typ)
			}
			ns.leaves["[]"+l.path] = Leaf{cells: cells}
			continue
		}
		base := mkFConst(zeroTerm(l.w))
		if a.obj != nil {
			base = shiftArr(st.leafArr(as, a.path+l.path, l.w), mkMulC(a.off, sz), l.w, mkMulC(a.len, sz))
		}
		var src *FArr
		var so *Term
		if str != nil {
			src, so = str.arr, str.off
		} else if bst != nil {
			src, so = st.leafArr(bst, bs.path+l.path, l.w), mkMulC(bs.off, sz)
		} else {
			src, so = mkFConst(zeroTerm(l.w)), k64(0)
		}
		ns.leaves["[]"+l.path] = Leaf{arr: mkFCopy(base, mkMulC(a.len, sz), mkMulC(n, sz), src, so)}
	}
	o.whole = nl
	st.mem = st.mem.set(o.id, ns)
	room := mkSle(nl, a.cap)
	if a.obj != nil && !st.decide(room).isFalse() {
		// may share the backing array
		s := st.ostate(a.obj)
		full := a.len
		if s.appended || !x.isWhole(st, a) {
			_ = full
			// elements past len may be visible elsewhere: those views become unreadable
			if a.obj.group != nil {
				for m := range a.obj.group.members {
					if m != o {
						x.taintObj(st, m, "append in place may overwrite "+m.name)
					}
				}
			}
			x.taintObj(st, a.obj, "append in place may overwrite "+a.obj.name)
		} else {
			c := s.clone()
			c.appended = true
			st.mem = st.mem.set(a.obj.id, c)
		}
		joinGroup(o, a.obj)
	}
	cp := mkIte(room, a.cap, nl)
	if a.obj == nil {
		cp = nl
	}
	return &SliceV{obj: o, path: "[]", off: k64(0), len: nl, cap: cp, isnil: mkAnd(a.isnil, mkEq(n, k64(0))), et: a.et}
}

// isWhole: a covers everything of its object that is visible (no view extends past it).
func (x *Exec) isWhole(st *State, a *SliceV) bool {
	if !a.obj.isArr || a.path != "[]" {
		return false
	}
	return a.obj.whole == a.len && a.off.isConst() && a.off.v == 0
}

func (x *Exec) doCopy(st *State, d *SliceV, bv Value) Value {
	var n, so *Term
	switch b := bv.(type) {
	case *SliceV:
		n = minTerm(st, d.len, b.len)
		if n.isConst() && n.v == 0 || d.obj == nil || b.obj == nil {
			return n
		}
		bst := st.readable(b.obj)
		ds := st.writable(x, d.obj)
		for _, l := range leavesOf(d.et, true) {
			if l.cells {
				unsup("copy of slices of %s", typeStr(d.et))
			}
			sz := uint64(l.size)
			src := st.leafArr(bst, b.path+l.path, l.w)
			p := d.path + l.path
			ds.leaves[p] = Leaf{arr: mkFCopy(st.leafArr(ds, p, l.w), mkMulC(d.off, sz), mkMulC(n, sz), src, mkMulC(b.off, sz))}
			if x.track != nil {
				x.track.note(d.obj, p)
			}
		}
		return n
	case *StrV:
		n = minTerm(st, d.len, b.len)
		so = b.off
		if d.obj == nil {
			return n
		}
		ds := st.writable(x, d.obj)
		ds.leaves[d.path] = Leaf{arr: mkFCopy(st.leafArr(ds, d.path, 8), d.off, n, b.arr, so)}
		if x.track != nil {
			x.track.note(d.obj, d.path)
		}
		return n
	}
	unsup("copy of %T", bv)
	return nil
}

// refined names a value by a variable that carries its known range.
func (x *Exec) refined(st *State, t *Term, lo, hi int64) *Term {
	v := mkVar(fmt.Sprintf("rf:%d:%d:%d", t.id, lo, hi), t.w)
	v.setS(lo, hi)
	st.assume(mkEq(v, t))
	return v
}

func minTerm(st *State, a, b *Term) *Term {
	c := st.decide(mkSle(a, b))
	return mkIte(c, a, b)
}

// ---- conversions

func (x *Exec) convert(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	fw, fs := scalarWidth(from)
	tw, ts := scalarWidth(to)
	if fs && ts && fw > 0 && tw > 0 {
		t := asTerm(v)
		if tw == t.w {
			return t
		}
		if tw < t.w {
			if t.uhi > mask(tw) && !t.isConst() {
				if lo, hi := st.pc.gather().rng(t, 6); lo >= 0 && uint64(hi) <= mask(tw) {
					return mkExtract(x.refined(st, t, lo, hi), 0, tw)
				}
			}
			return mkExtract(t, 0, tw)
		}
		if isSigned(from) {
			return mkSExt(t, tw)
		}
		return mkZExt(t, tw)
	}
	if isString(to) {
		switch a := v.(type) {
		case *StrV:
			return a
		case *SliceV:
			if a.obj == nil {
				return strConst("")
			}
			s := st.readable(a.obj)
			return normStr(&StrV{arr: st.leafArr(s, a.path, 8), off: a.off, len: a.len})
		case *Term:
			return runeStr(a, isSigned(from))
		case *PoisonV:
			return a
		}
	}
	if s, ok := under(to).(*types.Slice); ok {
		if a, ok := v.(*StrV); ok {
			r := x.newSlice(st, "bytes", s.Elem(), a.len, a.len)
			ns := &ObjState{leaves: map[string]Leaf{"[]": {arr: shiftArr(a.arr, a.off, 8, a.len)}}}
			st.mem = st.mem.set(r.obj.id, ns)
			return r
		}
	}
	unsup("conversion from %s to %s", typeStr(from), typeStr(to))
	return nil
}

// normStr makes a concrete string literal when everything is constant.
func normStr(s *StrV) *StrV {
	if c, ok := s.concrete(); ok {
		return strConst(c)
	}
	return s
}

func (s *StrV) concrete() (string, bool) {
	if !s.len.isConst() || s.len.v > 1<<16 {
		return "", false
	}
	b := make([]byte, s.len.v)
	for i := range b {
		t := sel(s.arr, mkAddC(s.off, int64(i)))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.v)
	}
	return string(b), true
}

func runeStr(r *Term, signed bool) Value {
	t := r
	if t.w > 32 {
		if t.isConst() {
			return strConst(string(rune(t.v)))
		}
		if t.uhi > 0x10ffff {
			unsup("conversion of unbounded integer to string")
		}
		t = mkExtract(t, 0, 32)
	} else if t.w < 32 {
		if signed {
			t = mkSExt(t, 32)
		} else {
			t = mkZExt(t, 32)
		}
	}
	if t.isConst() {
		return strConst(string(rune(int32(t.v))))
	}
	c32 := func(v uint64) *Term { return mkConst(v, 32) }
	one := mkUlt(t, c32(0x80))
	byteAt := func(shift uint, m, or uint64) *Term {
		return mkExtract(mkBOr(mkBAnd(mkLshr(t, c32(uint64(shift))), c32(m)), c32(or)), 0, 8)
	}
	low := mkExtract(t, 0, 8)
	if t.uhi < 0x80 {
		return &StrV{arr: mkFStore(mkFConst(zeroTerm(8)), k64(0), low), off: k64(0), len: k64(1)}
	}
	if t.uhi < 0x800 {
		b0 := mkIte(one, low, byteAt(6, 0x1f, 0xc0))
		b1 := byteAt(0, 0x3f, 0x80)
		arr := mkFStore(mkFStore(mkFConst(zeroTerm(8)), k64(0), b0), k64(1), b1)
		return &StrV{arr: arr, off: k64(0), len: mkIte(one, k64(1), k64(2))}
	}
	unsup("conversion of rune above U+07FF to string")
	return nil
}

// ---- range over maps and strings

type rangeIter struct {
	m    *MapV
	mt   *types.Map
	str  *StrV
	keys []int
	pos  *Term
}

func (x *Exec) rangeStart(st *State, in *ssa.Range) Value {
	v := x.val(st, in.X)
	switch a := v.(type) {
	case *StrV:
		// iterator state kept in an object holding the byte position
		o := x.newObj("striter", types.Typ[types.Int], false)
		st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{"": {val: k64(0)}}})
		return &IterV{str: a, obj: o}
	case *MapV:
		mt := under(in.X.Type()).(*types.Map)
		o := x.newObj("mapiter", types.Typ[types.Int], false)
		st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{"": {val: k64(0)}}})
		return &IterV{m: a, mt: mt, obj: o}
	}
	unsup("range over %T", v)
	return nil
}

type IterV struct {
	str *StrV
	m   *MapV
	mt  *types.Map
	obj *Obj
}

func (x *Exec) rangeNext(st *State, in *ssa.Next) *State {
	it, ok := x.val(st, in.Iter).(*IterV)
	if !ok {
		unsup("next on unknown iterator")
	}
	s := st.ostate(it.obj)
	p := s.leaves[""].val.(*Term)
	if it.str != nil {
		more := mkSlt(p, it.str.len)
		ch := sel(it.str.arr, mkAdd(it.str.off, p))
		// ASCII only: precondition
		x.oblige(st, "model", "range over string: byte below 0x80 (ASCII)", mkOr(mkNot(more), mkUlt(ch, mkConst(0x80, 8))), in.Pos())
		ns := st.writable(x, it.obj)
		if x.track != nil {
			x.track.note(it.obj, "")
		}
		ns.leaves[""] = Leaf{val: mkIte(more, mkAddC(p, 1), p)}
		x.setReg(st, in, &TupleV{v: []Value{more, p, mkZExt(ch, 32)}})
		return st
	}
	// map: only string-keyed association lists with decided membership
	if it.m.obj == nil {
		kz := zeroValue(it.mt.Key())
		x.setReg(st, in, &TupleV{v: []Value{tFalse, kz, zeroValue(it.mt.Elem())}})
		return st
	}
	ms := st.readable(it.m.obj)
	if x.mapIsAssoc(it.mt) && p.isConst() {
		i := int(p.v)
		for i < len(ms.assoc) && ms.assoc[i].cond.isFalse() {
			i++
		}
		ns := st.writable(x, it.obj)
		if i >= len(ms.assoc) {
			x.setReg(st, in, &TupleV{v: []Value{tFalse, strConst(""), zeroValue(it.mt.Elem())}})
			return st
		}
		if !ms.assoc[i].cond.isTrue() {
			unsup("range over map with undecided membership")
		}
		ns.leaves[""] = Leaf{val: k64(int64(i) + 1)}
		x.assumed["iteration order of concrete maps: insertion order stands for any order"] = true
		x.setReg(st, in, &TupleV{v: []Value{tTrue, ms.assoc[i].key, ms.assoc[i].val}})
		return st
	}
	return x.mapNext(st, in, it, ms, p)
}

// mapNext: an arbitrary not-yet-visited key of an integer-keyed map. The
// iterator keeps the set of visited keys.
func (x *Exec) mapNext(st *State, in *ssa.Next, it *IterV, ms *ObjState, p *Term) *State {
	is := st.writable(x, it.obj)
	vis := st.leafArr(is, "#vis", 0)
	has := st.leafArr(ms, "#has", 0)
	cnt := x.mapCount(ms)
	more := mkSlt(p, cnt)
	bits, ok := x.mapKeyBits(it.mt)
	if !ok {
		unsup("range over map with wide keys")
	}
	key := mkFresh("mapkey", 64)
	if bits < 64 {
		key.setU(0, mask(uint8(bits)))
	}
	// if more: key is present and unvisited
	x.assumed["map iteration visits each present key exactly once, in any order"] = true
	st.assume(mkImplies(more, mkAnd(sel(has, key), mkNot(sel(vis, key)))))
	if x.track != nil {
		x.track.note(it.obj, "")
		x.track.note(it.obj, "#vis")
	}
	is.leaves["#vis"] = Leaf{arr: mkFIte(more, mkFStore(vis, key, tTrue), vis)}
	is.leaves[""] = Leaf{val: mkIte(more, mkAddC(p, 1), p)}
	v := st.loadAt(x, it.m.obj, "V", key, it.mt.Elem())
	var kv Value
	if w, ok := scalarWidth(it.mt.Key()); ok {
		kv = mkExtract(key, 0, w)
	} else {
		unsup("range over map with struct keys")
	}
	x.setReg(st, in, &TupleV{v: []Value{more, kv, v}})
	return st
}

// ---- effects on the outside world

type fxEvent struct {
	cond *Term
	kind string
	name *StrV
	data *StrV
}

type Effects struct {
	ev []fxEvent
}

func (st *State) addFx(kind string, name, data *StrV) {
	n := &Effects{}
	if st.fx != nil {
		n.ev = append(n.ev, st.fx.ev...)
	}
	n.ev = append(n.ev, fxEvent{tTrue, kind, name, data})
	st.fx = n
}

func (x *Exec) mergeFx(c *Term, a, b *Effects) *Effects {
	if a == b {
		return a
	}
	var ea, eb []fxEvent
	if a != nil {
		ea = a.ev
	}
	if b != nil {
		eb = b.ev
	}
	r := &Effects{}
	i := 0
	for i < len(ea) && i < len(eb) && ea[i] == eb[i] {
		r.ev = append(r.ev, ea[i])
		i++
	}
	// pairwise merge of equal kinds
	ra, rb := ea[i:], eb[i:]
	for len(ra) > 0 && len(rb) > 0 && ra[0].kind == rb[0].kind && ra[0].name != nil && rb[0].name != nil {
		e := fxEvent{cond: mkIte(c, ra[0].cond, rb[0].cond), kind: ra[0].kind, name: mergeStr(c, ra[0].name, rb[0].name)}
		if ra[0].data != nil && rb[0].data != nil {
			e.data = mergeStr(c, ra[0].data, rb[0].data)
		}
		r.ev = append(r.ev, e)
		ra, rb = ra[1:], rb[1:]
	}
	for _, e := range ra {
		e.cond = mkAnd(c, e.cond)
		r.ev = append(r.ev, e)
	}
	for _, e := range rb {
		e.cond = mkAnd(mkNot(c), e.cond)
		r.ev = append(r.ev, e)
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
