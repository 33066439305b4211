package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- SMT-LIB printing

type smtPrinter struct {
	sb    strings.Builder
	names map[*Term]string
	decl  map[string]bool
	arrs  map[*FArr]string
	sels  []*Term // OVar and OSel(var)/OUF leaves, for models
	seenL map[*Term]bool
	ufs   map[string]string
}

func newPrinter() *smtPrinter {
	return &smtPrinter{names: map[*Term]string{}, decl: map[string]bool{}, arrs: map[*FArr]string{}, seenL: map[*Term]bool{}, ufs: map[string]string{}}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func bvLit(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v&mask(w), 10) + " " + strconv.Itoa(int(w)) + ")"
}

func quoteSym(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

// ref returns an expression naming t, emitting definitions as needed.
func (p *smtPrinter) ref(t *Term) string {
	if t.op == OConst {
		return bvLit(t.v, t.w)
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := p.names[f.t]; ok || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.a) {
			c := f.t.a[f.i]
			f.i++
			if _, ok := p.names[c]; !ok && c.op != OConst {
				st = append(st, fr{c, 0})
			}
			continue
		}
		p.emit(f.t)
		st = st[:len(st)-1]
	}
	return p.names[t]
}

func (p *smtPrinter) bounds(n string, t *Term) {
	full := t.ulo == 0 && t.uhi == mask(t.w)
	if t.w == 0 || full && t.slo == -(int64(1)<<(t.w-1)) && t.shi == int64(mask(t.w)>>1) {
		return
	}
	fmt.Fprintf(&p.sb, "(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvLit(uint64(t.slo), t.w), n, n, bvLit(uint64(t.shi), t.w))
	if t.slo < 0 && !full {
		fmt.Fprintf(&p.sb, "(assert (and (bvule %s %s) (bvule %s %s)))\n", bvLit(t.ulo, t.w), n, n, bvLit(t.uhi, t.w))
	}
}

func (p *smtPrinter) emit(t *Term) {
	r := func(i int) string {
		if t.a[i].op == OConst {
			return bvLit(t.a[i].v, t.a[i].w)
		}
		return p.names[t.a[i]]
	}
	var e string
	bin := func(op string) string { return "(" + op + " " + r(0) + " " + r(1) + ")" }
	switch t.op {
	case OVar:
		n := quoteSym(t.name)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, sortOf(t.w))
		p.names[t] = n
		p.bounds(n, t)
		p.sels = append(p.sels, t)
		return
	case ONot:
		e = "(not " + r(0) + ")"
	case OAnd, OOr:
		var b strings.Builder
		if t.op == OAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for i := range t.a {
			b.WriteByte(' ')
			b.WriteString(r(i))
		}
		b.WriteByte(')')
		e = b.String()
	case OIte:
		e = "(ite " + r(0) + " " + r(1) + " " + r(2) + ")"
	case OIff:
		e = bin("=")
	case OEq0, OLt0:
		d := t.a[0]
		if d.op == OLin {
			l, rr := p.linSides(d)
			if t.op == OEq0 {
				e = "(= " + l + " " + rr + ")"
			} else if linSidesExact(d) {
				e = "(bvslt " + l + " " + rr + ")"
			} else {
				e = "(bvslt " + r(0) + " " + bvLit(0, d.w) + ")"
			}
		} else if t.op == OEq0 {
			e = "(= " + r(0) + " " + bvLit(0, d.w) + ")"
		} else {
			e = "(bvslt " + r(0) + " " + bvLit(0, d.w) + ")"
		}
	case OUlt:
		e = bin("bvult")
	case OSlt:
		e = bin("bvslt")
	case OLin:
		e = p.linExpr(t)
	case OMul:
		e = bin("bvmul")
	case OUDiv:
		e = bin("bvudiv")
	case OURem:
		e = bin("bvurem")
	case OSDiv:
		e = bin("bvsdiv")
	case OSRem:
		e = bin("bvsrem")
	case OShl:
		e = bin("bvshl")
	case OLshr:
		e = bin("bvlshr")
	case OAshr:
		e = bin("bvashr")
	case OBAnd:
		e = bin("bvand")
	case OBOr:
		e = bin("bvor")
	case OBXor:
		e = bin("bvxor")
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.v)+int(t.w)-1, t.v, r(0))
	case OConcat:
		e = bin("concat")
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OSel:
		e = "(" + p.arrName(t.arr) + " " + r(0) + ")"
	case OUF:
		key := t.name
		if t.arr != nil {
			key = fmt.Sprintf("%s@%d", t.name, t.arr.id)
		}
		if !p.decl[key] {
			p.decl[key] = true
			var b strings.Builder
			for _, x := range t.a {
				b.WriteString(sortOf(x.w) + " ")
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", quoteSym(key), b.String(), sortOf(t.w))
		}
		if len(t.a) == 0 {
			e = quoteSym(key)
		} else {
			e = "(" + quoteSym(key)
			for i := range t.a {
				e += " " + r(i)
			}
			e += ")"
		}
	default:
		panic("smt: op")
	}
	n := "t" + strconv.Itoa(int(t.id))
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sortOf(t.w), e)
	p.names[t] = n
	if (t.op == OSel && t.arr.op == FVarA) || t.op == OUF {
		p.bounds(n, t)
		p.sels = append(p.sels, t)
	}
}

func (p *smtPrinter) linExpr(t *Term) string {
	var parts []string
	if t.v != 0 {
		parts = append(parts, bvLit(t.v, t.w))
	}
	for i, x := range t.a {
		n := p.names[x]
		if t.co[i] == 1 {
			parts = append(parts, n)
		} else if t.co[i] == mask(t.w) {
			parts = append(parts, "(bvneg "+n+")")
		} else if k, ok := isPow2(t.co[i]); ok {
			parts = append(parts, "(bvshl "+n+" "+bvLit(uint64(k), t.w)+")")
		} else {
			parts = append(parts, "(bvmul "+bvLit(t.co[i], t.w)+" "+n+")")
		}
	}
	e := parts[0]
	for _, q := range parts[1:] {
		e = "(bvadd " + e + " " + q + ")"
	}
	return e
}

// linSides prints d == 0 as (pos part) vs (neg part).
func (p *smtPrinter) linSides(d *Term) (string, string) {
	// make sure atoms are named
	for _, x := range d.a {
		p.ref(x)
	}
	side := func(neg bool) string {
		var parts []string
		v := sext64(d.v, d.w)
		if v != 0 && (v < 0) == neg {
			parts = append(parts, bvLit(absU(v), d.w))
		}
		for i, x := range d.a {
			c := sext64(d.co[i], d.w)
			if (c < 0) != neg {
				continue
			}
			a := absU(c)
			n := p.names[x]
			if a == 1 {
				parts = append(parts, n)
			} else if k, ok := isPow2(a); ok {
				parts = append(parts, "(bvshl "+n+" "+bvLit(uint64(k), d.w)+")")
			} else {
				parts = append(parts, "(bvmul "+bvLit(a, d.w)+" "+n+")")
			}
		}
		if len(parts) == 0 {
			return bvLit(0, d.w)
		}
		e := parts[0]
		for _, q := range parts[1:] {
			e = "(bvadd " + e + " " + q + ")"
		}
		return e
	}
	return side(false), side(true)
}

func linSidesExact(d *Term) bool {
	if !linExactS(d) {
		return false
	}
	chk := func(neg bool) bool {
		l := lin{}
		v := sext64(d.v, d.w)
		if (v < 0) == neg {
			l.c = absU(v)
		}
		for i, x := range d.a {
			c := sext64(d.co[i], d.w)
			if (c < 0) == neg {
				l.ts = append(l.ts, x)
				l.co = append(l.co, absU(c))
			}
		}
		lo, hi := linRange(d.w, l.c, l.ts, l.co, baseIv)
		return lo.fitsI64() && hi.fitsI64()
	}
	return chk(false) && chk(true)
}

func (p *smtPrinter) arrName(f *FArr) string {
	if n, ok := p.arrs[f]; ok {
		return n
	}
	var n string
	if f.op == FVarA {
		n = quoteSym("A:" + f.name)
		fmt.Fprintf(&p.sb, "(declare-fun %s ((_ BitVec 64)) %s)\n", n, sortOf(f.w))
	} else {
		n = fmt.Sprintf("lit%d", f.id)
		body := p.litTree(f, 0, len(f.lit))
		d := n
		if f.stride > 0 {
			d = n + "d"
		}
		fmt.Fprintf(&p.sb, "(define-fun %s ((i (_ BitVec 64))) %s (ite (bvult i %s) %s %s))\n", d, sortOf(f.w), bvLit(uint64(len(f.lit)), 64), body, bvLit(0, f.w))
		if f.stride > 0 {
			sh := bits.TrailingZeros64(f.stride) // a power of two
			row := fmt.Sprintf("(concat ((_ extract %d 32) i) ((_ extract %d 0) i))", 63, sh-1)
			if sh == 0 {
				row = "((_ extract 63 32) i)"
			}
			fmt.Fprintf(&p.sb, "(define-fun %s ((i (_ BitVec 64))) %s (ite (bvult ((_ extract 31 0) i) %s) (%s ((_ zero_extend %d) %s)) %s))\n", n, sortOf(f.w), bvLit(f.stride, 32), d, 64-32-sh, row, bvLit(0, f.w))
		}
	}
	p.arrs[f] = n
	return n
}

func (p *smtPrinter) litTree(f *FArr, lo, hi int) string {
	same := true
	for i := lo + 1; i < hi; i++ {
		if f.lit[i] != f.lit[lo] {
			same = false
			break
		}
	}
	if same {
		return bvLit(f.lit[lo], f.w)
	}
	m := (lo + hi) / 2
	return "(ite (bvult i " + bvLit(uint64(m), 64) + ") " + p.litTree(f, lo, m) + " " + p.litTree(f, m, hi) + ")"
}

func smtQuery(assume []*Term, goal *Term, wantModel bool) (string, *smtPrinter) {
	p := newPrinter()
	for _, a := range assume {
		if a.isTrue() {
			continue
		}
		n := p.ref(a)
		fmt.Fprintf(&p.sb, "(assert %s)\n", n)
	}
	n := p.ref(goal)
	fmt.Fprintf(&p.sb, "(assert (not %s))\n", n)
	return p.sb.String(), p
}

// ---- solver processes

type SolverStats struct {
	mu      sync.Mutex
	Queries int
	ByName  map[string]int
	Time    time.Duration
}

var stats = SolverStats{ByName: map[string]int{}}

type Solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func startSolver(name string, args ...string) *Solver {
	s := &Solver{name: name, args: args}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver", s.name, err)
	}
}

func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

type Result int

const (
	Unknown Result = iota
	Valid
	Invalid
)

func (r Result) String() string { return [...]string{"unknown", "valid", "invalid"}[r] }

// ask sends one query; returns the verdict and, for sat, the raw model values.
func (s *Solver) ask(body string, leaves []*Term, p *smtPrinter, timeout time.Duration) (Result, map[*Term]uint64) {
	ms := int(timeout / time.Millisecond)
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	if strings.HasPrefix(s.name, "z3") {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
		sb.WriteString("(set-option :model.completion true)\n")
	} else {
		sb.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
		fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n", ms)
	}
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
	timer := time.AfterFunc(timeout+5*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.cmd.Wait()
		s.start()
		return Unknown, nil
	}
	res := ""
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Wait()
			s.start()
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if strings.Contains(line, "<<done>>") {
			break
		}
		if strings.HasPrefix(line, "(error") && os.Getenv("GV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SMT:", line)
			os.WriteFile("/tmp/gv_bad.smt2", []byte(body), 0644)
		}
		if line == "sat" || line == "unsat" || line == "unknown" {
			res = line
		}
	}
	switch res {
	case "unsat":
		return Valid, nil
	case "sat":
		if p == nil {
			return Invalid, nil
		}
		m := map[*Term]uint64{}
		get := func(names []string) []uint64 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, n := range names {
				q.WriteString(n + " ")
			}
			q.WriteString("))\n(echo \"<<done>>\")\n")
			io.WriteString(s.in, q.String())
			var txt strings.Builder
			for {
				line, err := s.out.ReadString('\n')
				if err != nil {
					s.cmd.Wait()
					s.start()
					return nil
				}
				if strings.Contains(line, "<<done>>") {
					break
				}
				txt.WriteString(line)
			}
			return parseValues(txt.String(), len(names))
		}
		var names []string
		var ts []*Term
		for _, t := range p.sels {
			names = append(names, p.names[t])
			ts = append(ts, t)
			if t.op == OSel {
				if t.a[0].op == OConst {
					m[t.a[0]] = t.a[0].v
				} else {
					names = append(names, p.names[t.a[0]])
					ts = append(ts, t.a[0])
				}
			}
		}
		for i := 0; i < len(names); i += 200 {
			j := i + 200
			if j > len(names) {
				j = len(names)
			}
			vals := get(names[i:j])
			if vals == nil || len(vals) != j-i {
				return Invalid, m
			}
			for k, v := range vals {
				m[ts[i+k]] = v
			}
		}
		return Invalid, m
	}
	return Unknown, nil
}

// parseValues extracts n literal values from a get-value answer.
func parseValues(s string, n int) []uint64 {
	// values appear as the last token(s) of each pair
	var out []uint64
	depth := 0
	i := 0
	for i < len(s) && len(out) < n {
		c := s[i]
		switch {
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			i += j + 2
			continue
		case c == '(':
			depth++
			// (_ bvN w)
			if strings.HasPrefix(s[i:], "(_ bv") && depth == 3 {
				j := i + 5
				k := j
				for k < len(s) && s[k] >= '0' && s[k] <= '9' {
					k++
				}
				v, _ := strconv.ParseUint(s[j:k], 10, 64)
				out = append(out, v)
			}
		case c == ')':
			depth--
		case c == '#' && depth == 2:
			j := i + 2
			k := j
			for k < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[k]) >= 0 {
				k++
			}
			base := 16
			if s[i+1] == 'b' {
				base = 2
			}
			v, _ := strconv.ParseUint(s[j:k], base, 64)
			out = append(out, v)
			i = k
			continue
		case depth == 2 && (strings.HasPrefix(s[i:], "true)") || strings.HasPrefix(s[i:], "false)")) && (s[i-1] == ' '):
			if s[i] == 't' {
				out = append(out, 1)
			} else {
				out = append(out, 0)
			}
		}
		i++
	}
	return out
}

// Pool of solver processes.
type pool struct {
	ch map[string]chan *Solver
}

var solvers *pool

var solverCmds = map[string][]string{
	"z3":     {"-in", "-smt2"},
	"z3-new": {"-in", "-smt2"},
	"cvc5":   {"--incremental", "--lang=smt2", "--quiet"},
}

func initPool(n int) {
	solvers = &pool{ch: map[string]chan *Solver{}}
	for k := range solverCmds {
		solvers.ch[k] = make(chan *Solver, n)
		for i := 0; i < n; i++ {
			solvers.ch[k] <- nil // lazily started
		}
	}
}

func (p *pool) get(name string) *Solver {
	s := <-p.ch[name]
	if s == nil {
		s = startSolver(name, solverCmds[name]...)
	}
	return s
}
func (p *pool) put(name string, s *Solver) { p.ch[name] <- s }
func (p *pool) stopAll() {
	for _, c := range p.ch {
		for {
			select {
			case s := <-c:
				if s != nil {
					s.stop()
				}
				continue
			default:
			}
			break
		}
	}
}

type Verdict struct {
	res    Result
	solver string
	model  map[*Term]uint64
	p      *smtPrinter
	took   time.Duration
}

// prove decides whether assume => goal is valid.
func prove(assume []*Term, goal *Term, timeout time.Duration, order []string, wantModel bool) Verdict {
	if goal.isTrue() {
		return Verdict{res: Valid, solver: "simplifier"}
	}
	for _, a := range assume {
		if a.isFalse() || a == mkNotSafe(goal) && false {
			return Verdict{res: Valid, solver: "simplifier"}
		}
	}
	t0 := time.Now()
	q, p := smtQuery(assume, goal, wantModel)
	if os.Getenv("GV_DUMP") != "" {
		os.WriteFile("/tmp/gv_last.smt2", []byte(q+"(check-sat)\n"), 0644)
	}
	var last Verdict
	for _, name := range order {
		s := solvers.get(name)
		pp := p
		if !wantModel {
			pp = nil
		}
		r, m := s.ask(q, nil, pp, timeout)
		solvers.put(name, s)
		d := time.Since(t0)
		stats.mu.Lock()
		stats.Queries++
		stats.ByName[name]++
		stats.Time += d
		stats.mu.Unlock()
		last = Verdict{res: r, solver: name, model: m, p: p, took: d}
		if r != Unknown {
			return last
		}
	}
	return last
}

func mkNotSafe(t *Term) *Term { return t }
