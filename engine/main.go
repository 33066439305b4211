package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// OblRes is the outcome of one obligation, as written by a worker.
type OblRes struct {
	Kind   string  `json:"kind"`
	Label  string  `json:"label"`
	Fn     string  `json:"fn"`
	Pos    string  `json:"pos"`
	Status string  `json:"status"`
	By     string  `json:"by"`
	Took   float64 `json:"took"`
}

// Inputs mirrors verifrt.Inputs.
type Inputs struct {
	Harness string                       `json:"harness"`
	Failure string                       `json:"failure,omitempty"`
	Scalars map[string]string            `json:"scalars,omitempty"`
	Bytes   map[string]string            `json:"bytes,omitempty"`
	Sparse  map[string]map[string]uint64 `json:"sparse,omitempty"`
	Vecs    map[string][]uint64          `json:"vecs,omitempty"`
}

// HarnessResult is what one worker reports about one harness.
type HarnessResult struct {
	Name        string         `json:"name"`
	Obligations int            `json:"obligations"`
	Trivial     int            `json:"trivial"`
	Discharged  int            `json:"discharged"`
	By          map[string]int `json:"by"`
	Failed      []OblRes       `json:"failed"`
	Slowest     []OblRes       `json:"slowest"`
	Labels      []string       `json:"labels"`
	Err         string         `json:"err"`
	Unreached   []string       `json:"unreached"`
	Covers      int            `json:"covers"`
	Funcs       []string       `json:"funcs"`
	Assumed     []string       `json:"assumed"`
	Cut         []string       `json:"cut"`
	LoopNotes   []string       `json:"loop_notes"`
	Models      []Inputs       `json:"models"`
	ExecTime    float64        `json:"exec_s"`
	SolveTime   float64        `json:"solver_s"`
	Queries     int            `json:"queries"`
	Cases       int            `json:"cases"`

	obls   []*Obligation
	covers []*Cover
}

func (r *HarnessResult) ok() bool {
	return r.Err == "" && len(r.Failed) == 0 && len(r.Unreached) == 0 && r.Obligations > 0
}

func runHarness(p *Project, h *Harness, budget time.Duration) (res *HarnessResult) {
	res = &HarnessResult{Name: h.Name, By: map[string]int{}}
	cut := map[string]bool{}
	t0 := time.Now()
	tc = newTermCtx()
	initTerms()
	funcs, assumed, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var choices []int
	ended := false
	for {
		var x *Exec
		for round := 0; round < 60; round++ {
			again := false
			func() {
				x = newExec(p.prog)
				x.harness = h
				x.inst = &Inst{}
				x.fixed = choices
				for _, c := range choices {
					x.instTag += fmt.Sprintf(".%d", c)
				}
				x.deadline = func() bool { return time.Since(t0) > budget }
				for k := range cut {
					x.cut[k] = true
				}
				defer func() {
					if e := recover(); e != nil {
						switch u := e.(type) {
						case needCut:
							if cut[u.loop.id] {
								res.Err = "loop " + u.loop.id + " cannot be cut"
								return
							}
							cut[u.loop.id] = true
							again = true
							return
						case unsupported:
							res.Err = "unsupported: " + u.msg
						case budgetExceeded:
							res.Err = u.msg
						default:
							res.Err = fmt.Sprintf("engine: %v", e)
							if os.Getenv("GV_DEBUG") != "" {
								debug.PrintStack()
							}
						}
					}
				}()
				st := p.initState(x)
				out, _ := x.callFn(h.Fn, nil, nil, st)
				res.obls = append(res.obls, x.obls...)
				res.Trivial += x.nTriv
				res.covers = append(res.covers, x.covers...)
				if out != nil {
					ended = true
					res.covers = append(res.covers, &Cover{label: "harness end reached", pc: out.pc})
				}
				for _, m := range []struct{ dst, src map[string]bool }{{funcs, x.funcs}, {assumed, x.assumed}} {
					for k := range m.src {
						m.dst[k] = true
					}
				}
				for _, n := range x.loopNotes {
					notes[n] = true
				}
				x.inst.inputs = x.inputs
			}()
			if !again {
				break
			}
			vlog("  %s: cutting loops %v", h.Name, sortedKeys(cut))
		}
		if res.Err != "" {
			break
		}
		choices = nextChoice(x.taken, x.arity)
		if choices == nil {
			break
		}
		res.Cases++
	}
	if !ended && res.Err == "" {
		res.Unreached = append(res.Unreached, "harness end reached")
	}
	res.Funcs, res.Assumed, res.LoopNotes = sortedKeys(funcs), sortedKeys(assumed), sortedKeys(notes)
	res.Cut = sortedKeys(cut)
	res.ExecTime = time.Since(t0).Seconds()
	return
}

// nextChoice advances the case distinction like an odometer.
func nextChoice(taken, arity []int) []int {
	for i := len(taken) - 1; i >= 0; i-- {
		if taken[i]+1 < arity[i] {
			return append(append([]int{}, taken[:i]...), taken[i]+1)
		}
	}
	return nil
}

func (r *HarnessResult) finish(timeout time.Duration) {
	discharge(r.obls, timeout, 12)
	labels := map[string]bool{}
	for _, o := range r.obls {
		labels[o.Kind] = true
		if o.Kind == "assert" || o.Kind == "lemma" {
			l := o.Label
			if i := strings.Index(l, " ["); i > 0 {
				l = l[:i]
			}
			labels[o.Kind+": "+l] = true
		}
		or := OblRes{o.Kind, o.Label, o.Fn, o.Pos, o.Status, o.By, o.Took}
		if o.Status == "discharged" {
			r.Discharged++
			r.By[o.By]++
		} else {
			r.Failed = append(r.Failed, or)
			if o.model != nil && len(r.Models) < 16 {
				r.Models = append(r.Models, modelInputs(r, o))
			}
		}
		r.Slowest = append(r.Slowest, or)
	}
	r.By["simplifier"] += r.Trivial
	r.Discharged += r.Trivial
	r.Obligations = len(r.obls) + r.Trivial
	sort.SliceStable(r.Slowest, func(i, j int) bool { return r.Slowest[i].Took > r.Slowest[j].Took })
	if len(r.Slowest) > 3 {
		r.Slowest = r.Slowest[:3]
	}
	r.Labels = sortedKeys(labels)
	var wg sync.WaitGroup
	var mu sync.Mutex
	byLabel := map[string][]*Cover{}
	for _, c := range r.covers {
		byLabel[c.label] = append(byLabel[c.label], c)
	}
	for l, cs := range byLabel {
		l, cs := l, cs
		wg.Add(1)
		go func() {
			defer wg.Done()
			reach := false
			for _, c := range cs {
				q, _ := smtQuery(c.pc.conds(), tFalse, false)
				v := Unknown
				for _, n := range []string{"z3", "z3-new"} {
					s := solvers.get(n)
					v, _ = s.ask(q, nil, nil, 10*time.Second)
					solvers.put(n, s)
					if v != Unknown {
						break
					}
				}
				if v != Valid {
					reach = true
					break
				}
			}
			if !reach {
				mu.Lock()
				r.Unreached = append(r.Unreached, l)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	r.Covers = len(byLabel)
	stats.mu.Lock()
	r.SolveTime = stats.Time.Seconds()
	r.Queries = stats.Queries
	stats.mu.Unlock()
}

// modelInputs turns a solver model into harness inputs.
func modelInputs(r *HarnessResult, o *Obligation) Inputs {
	in := Inputs{Harness: r.Name, Failure: o.Kind + ": " + o.Label + " " + o.Fn + " " + o.Pos, Scalars: map[string]string{}, Sparse: map[string]map[string]uint64{}}
	for _, x := range o.inst.inputs {
		if x.t != nil {
			if x.t.isConst() {
				in.Scalars[x.Name] = strconv.FormatUint(x.t.v, 10)
			} else if v, ok := o.model[x.t]; ok {
				in.Scalars[x.Name] = strconv.FormatUint(v, 10)
			}
		}
		if x.arr != nil {
			in.Sparse[x.Name] = map[string]uint64{}
		}
	}
	for t, v := range o.model {
		if t.op != OSel || t.arr.op != FVarA {
			continue
		}
		for _, x := range o.inst.inputs {
			if x.arr == t.arr {
				if i, ok := o.model[t.a[0]]; ok {
					in.Sparse[x.Name][strconv.FormatUint(i, 10)] = v
				}
			}
		}
	}
	return in
}

var verbose bool

func vlog(f string, a ...interface{}) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// discharge decides all obligations in parallel.
func discharge(obls []*Obligation, timeout time.Duration, stopAfter int) {
	type job struct {
		o *Obligation
		q string
		p *smtPrinter
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := 0
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				mu.Lock()
				stop := stopAfter > 0 && failed >= stopAfter
				mu.Unlock()
				if stop {
					j.o.Status = "skipped"
					continue
				}
				t0 := time.Now()
				plan := []struct {
					s string
					t time.Duration
				}{{"z3", 3 * time.Second}, {"z3-new", timeout}, {"cvc5", timeout}, {"z3", timeout}}
				j.o.Status = "unknown"
				for _, st := range plan {
					s := solvers.get(st.s)
					r, m := s.ask(j.q, nil, j.p, st.t)
					solvers.put(st.s, s)
					stats.mu.Lock()
					stats.Queries++
					stats.ByName[st.s]++
					stats.mu.Unlock()
					if r == Valid {
						j.o.Status, j.o.By = "discharged", st.s
						break
					}
					if r == Invalid {
						j.o.Status, j.o.By, j.o.model = "failed", st.s, m
						break
					}
				}
				d := time.Since(t0)
				j.o.Took = d.Seconds()
				stats.mu.Lock()
				stats.Time += d
				stats.mu.Unlock()
				if j.o.Status != "discharged" {
					mu.Lock()
					failed++
					mu.Unlock()
				}
			}
		}()
	}
	seen := map[string]*Obligation{}
	type dup struct{ o, of *Obligation }
	var dups []dup
	for _, o := range obls {
		conds := o.pc.conds()
		f := false
		for _, c := range conds {
			if c.isFalse() {
				f = true
			}
		}
		if f {
			o.Status, o.By = "discharged", "simplifier"
			continue
		}
		conds = append(conds, o.extra...)
		if g := underLits(conds, o.goal); g.isTrue() {
			o.Status, o.By = "discharged", "simplifier"
			continue
		} else if !g.isFalse() {
			o.goal = g
		}
		q, p := smtQuery(conds, o.goal, true)
		if e, ok := seen[q]; ok {
			dups = append(dups, dup{o, e})
			continue
		}
		seen[q] = o
		if os.Getenv("GV_GOAL") != "" && strings.Contains(o.Label, os.Getenv("GV_GOAL")) {
			fmt.Println(o.Label, dumpTerm(o.goal, 12))
			for _, c := range conds {
				fmt.Println("   assume", dumpTerm(c, 6))
			}
			os.Exit(1)
		}
		jobs <- job{o, q, p}
	}
	close(jobs)
	wg.Wait()
	for _, d := range dups {
		d.o.Status, d.o.By, d.o.Took = d.of.Status, d.of.By, 0
		d.o.model = d.of.model
	}
}

var par = runtime.NumCPU()

func main() {
	prop := flag.String("prop", "", "property")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "only harnesses containing this")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "run one harness and write the result here")
	drop := flag.String("drop", "", "spec files to leave out")
	check := flag.Bool("check", false, "run the check of a property")
	self := flag.Int("selftest", 0, "check the simplifier on this many rounds of random terms")
	replay := flag.String("replay", "", "replay a violation file")
	jobs := flag.Int("j", runtime.NumCPU(), "solver processes")
	concSecs := flag.Float64("conc", -1, "seconds of concrete runs (check)")
	noProof := flag.Bool("noproof", false, "only concrete runs")
	flag.BoolVar(&verbose, "v", false, "verbose")
	budgetS := flag.Int("budget", 400, "seconds of symbolic execution")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *self > 0 {
		seed := int64(1)
		if v, err := strconv.ParseInt(os.Getenv("GV_SEED"), 10, 64); err == nil {
			seed = v
		}
		n, err := selfTest(seed, *self)
		if err != nil {
			fmt.Println("simplifier self-test FAILED:", err)
			os.Exit(1)
		}
		fmt.Println("simplifier self-test:", n, "evaluations agree")
		return
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	par = *jobs
	debug.SetGCPercent(200)
	if *check || *replay != "" {
		os.Exit(runCheck(checkArgs{prop: *prop, repo: *repo, verif: *verif, tier: *tier, only: *only, conc: *concSecs, replay: *replay, noProof: *noProof}))
	}
	tc = newTermCtx()
	initTerms()
	initPool(par)
	defer solvers.stopAll()
	t0 := time.Now()
	dropped := map[string]bool{}
	for _, d := range strings.Split(*drop, ",") {
		dropped[d] = true
	}
	p, err := loadProject(*repo, *verif+"/spec", *prop, dropped)
	if err != nil {
		fmt.Println("load error:", err)
		os.Exit(2)
	}
	vlog("loaded in %.1fs; %d harnesses", time.Since(t0).Seconds(), len(p.harness))
	timeout := 20 * time.Second
	budget := time.Duration(*budgetS) * time.Second
	if *tier == "thorough" {
		timeout, budget = 120*time.Second, 1500*time.Second
	}
	if *worker != "" {
		debug.SetMemoryLimit(10 << 30)
		for _, h := range p.harness {
			if h.Name == *only {
				r := runHarness(p, h, budget)
				r.finish(timeout)
				b, _ := json.Marshal(r)
				os.WriteFile(*worker, b, 0o644)
			}
		}
		return
	}
	bad := 0
	for _, h := range p.harness {
		if *only != "" && !strings.Contains(h.Name, *only) {
			continue
		}
		r := runHarness(p, h, budget)
		t1 := time.Now()
		r.finish(timeout)
		fmt.Printf("%s: %d/%d discharged %v, exec %.1fs, solve %.1fs %s\n", h.Name, r.Discharged, r.Obligations, r.By, r.ExecTime, time.Since(t1).Seconds(), r.Err)
		if !r.ok() {
			bad++
		}
		for _, n := range r.LoopNotes {
			vlog("   loop: %s", n)
		}
		for _, o := range r.Failed {
			fmt.Printf("   %s [%s] %s %s: %s (%.1fs %s)\n", o.Status, o.Kind, o.Fn, o.Pos, o.Label, o.Took, o.By)
		}
		if verbose {
			for _, o := range r.Slowest {
				fmt.Printf("   slow %s [%s] %s %s: %s (%.1fs %s)\n", o.Status, o.Kind, o.Fn, o.Pos, o.Label, o.Took, o.By)
			}
			fmt.Printf("   funcs %v\n   assumed %v\n   cut %v\n", r.Funcs, r.Assumed, r.Cut)
			for _, m := range r.Models {
				b, _ := json.Marshal(m)
				if len(b) > 2000 {
					b = b[:2000]
				}
				fmt.Printf("   model %s\n", b)
			}
		}
		for _, c := range r.Unreached {
			fmt.Printf("   COVER unreachable: %s\n", c)
		}
	}
	fmt.Printf("total %.1fs, bad=%d\n", time.Since(t0).Seconds(), bad)
}

var litCache struct {
	key string
	s   *Subst
}

// underLits simplifies a goal with the atoms the assumptions fix.
func underLits(conds []*Term, goal *Term) *Term {
	s := newSubst()
	var add func(c *Term, v *Term)
	add = func(c *Term, v *Term) {
		switch {
		case c.op == ONot:
			add(c.a[0], mkNot(v))
			return
		case c.op == OAnd && v.isTrue(), c.op == OOr && v.isFalse():
			for _, x := range c.a {
				add(x, v)
			}
			return
		}
		s.t[c] = v
		if n := negated(c); n != nil {
			s.t[n] = mkNot(v)
		}
	}
	for _, c := range conds {
		add(c, tTrue)
	}
	return s.term(goal)
}

func dumpTerm(t *Term, depth int) string {
	if t.op == OConst {
		return fmt.Sprint(sext64(t.v, t.w))
	}
	if t.op == OVar {
		return t.name
	}
	if depth == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	r := fmt.Sprintf("(%d", t.op)
	if t.op == OLin {
		r += fmt.Sprintf(" %d", sext64(t.v, t.w))
		for i, x := range t.a {
			r += fmt.Sprintf(" +%d*%s", sext64(t.co[i], t.w), dumpTerm(x, depth-1))
		}
		return r + ")"
	}
	if t.arr != nil {
		r += " " + t.arr.name
	}
	for _, x := range t.a {
		r += " " + dumpTerm(x, depth-1)
	}
	return r + ")"
}
