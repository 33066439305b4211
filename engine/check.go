package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type checkArgs struct {
	prop, repo, verif, tier, only, replay string
	conc                                  float64
	noProof                               bool
}

// specDirOf maps a harness source file to its package directory.
var harnessRe = regexp.MustCompile(`(?m)^func (V[HXC]_\w+)\(\)`)

type specSet struct {
	ov   map[string]string   // overlay of go files
	pkgs map[string][]string // package dir -> harness names
	pkgN map[string]string   // package dir -> package name
	dir  map[string]string   // harness -> package dir
	file map[string]string   // harness -> spec file (relative)
}

func scanSpecs(a checkArgs, drop map[string]bool) (*specSet, error) {
	ov, err := specFiles(a.repo, a.verif+"/spec", a.prop, drop)
	if err != nil {
		return nil, err
	}
	s := &specSet{ov: ov, pkgs: map[string][]string{}, pkgN: map[string]string{}, dir: map[string]string{}, file: map[string]string{}}
	for target, real := range ov {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		rel, _ := filepath.Rel(a.repo, filepath.Dir(target))
		m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
		for _, h := range harnessRe.FindAllSubmatch(b, -1) {
			n := string(h[1])
			if !strings.HasPrefix(n[3:], a.prop+"_") || a.only != "" && !strings.Contains(n, a.only) {
				continue
			}
			s.pkgs[rel] = append(s.pkgs[rel], n)
			s.pkgN[rel] = string(m[1])
			s.dir[n] = rel
			r, _ := filepath.Rel(a.verif+"/spec", real)
			s.file[n] = r
		}
	}
	for k := range s.pkgs {
		sort.Strings(s.pkgs[k])
	}
	return s, nil
}

// concrete is the built concrete-run binary of each package.
type concrete struct {
	dir  string
	bins map[string]string // package dir -> binary
	errs []string
}

func buildConcrete(a checkArgs, s *specSet, tmp string) *concrete {
	c := &concrete{dir: tmp, bins: map[string]string{}}
	rep := map[string]string{}
	for k, v := range s.ov {
		rep[k] = v
	}
	for pkg, hs := range s.pkgs {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/verifrt\"\n)\n\nfunc TestVerifMain(t *testing.T) {\n\tverifrt.Main(map[string]func(){\n", s.pkgN[pkg], modPath)
		for _, h := range hs {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", h, h)
		}
		b.WriteString("\t})\n}\n")
		f := filepath.Join(tmp, "main_"+strings.ReplaceAll(pkg, "/", "_")+".go")
		os.WriteFile(f, []byte(b.String()), 0o644)
		rep[filepath.Join(a.repo, pkg, "zz_verif_main_test.go")] = f
	}
	ovf := filepath.Join(tmp, "overlay.json")
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ovf, j, 0o644)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for pkg := range s.pkgs {
		pkg := pkg
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin := filepath.Join(tmp, "t_"+strings.ReplaceAll(pkg, "/", "_")+".test")
			cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+pkg)
			cmd.Dir = a.repo
			cmd.Env = goEnv()
			out, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				c.errs = append(c.errs, fmt.Sprintf("%s: %v\n%s", pkg, err, out))
				return
			}
			c.bins[pkg] = bin
		}()
	}
	wg.Wait()
	return c
}

type concSum struct {
	Runs    int            `json:"runs"`
	Skipped int            `json:"skipped"`
	Covered map[string]int `json:"covered"`
	Failed  int            `json:"failed"`
	Sample  *Inputs        `json:"sample"`
	Per     map[string]int `json:"-"`
}

// run executes harnesses concretely; returns a failing input if one is found.
func (c *concrete) run(a checkArgs, pkg, tag string, harness []string, replay []string, secs float64, seed int) (*Inputs, concSum, string) {
	bin := c.bins[pkg]
	var sum concSum
	if bin == "" {
		return nil, sum, "no concrete binary for " + pkg
	}
	out := filepath.Join(c.dir, "fail_"+tag+".json")
	sf := filepath.Join(c.dir, "sum_"+tag+".json")
	wd := filepath.Join(c.dir, "wd_"+tag)
	os.MkdirAll(wd, 0o755)
	cmd := exec.Command(bin, "-test.run", "^TestVerifMain$", "-test.timeout", "0")
	cmd.Dir = wd
	cmd.Env = append(goEnv(), "VERIF_HARNESS="+strings.Join(harness, ","), "VERIF_REPLAY="+strings.Join(replay, ","),
		fmt.Sprintf("VERIF_SECS=%g", secs), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_OUT="+out, "VERIF_SUM="+sf, "TMPDIR="+wd, "HOME="+wd)
	var buf strings.Builder
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return nil, sum, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Duration((secs + 60) * float64(time.Second))):
		cmd.Process.Kill()
		<-done
		return nil, sum, "concrete runs did not finish"
	}
	if b, e := os.ReadFile(sf); e == nil {
		json.Unmarshal(b, &sum)
	}
	if b, e := os.ReadFile(out); e == nil {
		var in Inputs
		if json.Unmarshal(b, &in) == nil {
			return &in, sum, ""
		}
	}
	if err != nil {
		// a fatal error of the Go runtime (stack overflow, out of memory):
		// the last harness and inputs were noted before each run
		t := buf.String()
		if len(t) > 4000 {
			t = t[:4000]
		}
		return nil, sum, fmt.Sprintf("concrete runs ended abnormally: %v\n%s", err, t)
	}
	return nil, sum, ""
}

func runCheck(a checkArgs) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	outDir := filepath.Join(a.verif, "out", a.prop)
	os.MkdirAll(outDir, 0o755)
	tmp, err := os.MkdirTemp("", "verif-"+a.prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	if a.replay != "" {
		return doReplay(a, tmp)
	}
	violation := func(name string, body map[string]interface{}, nfif bool) {
		f := filepath.Join(outDir, name)
		body["property"] = a.prop
		b, _ := json.MarshalIndent(body, "", " ")
		os.WriteFile(f, b, 0o644)
		sfx := ""
		if nfif {
			sfx = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", a.prop, f, sfx)
	}
	// which spec files compile against the current tree
	drop := map[string]bool{}
	var dropWhy []string
	for i := 0; i < 8; i++ {
		_, err = loadProject(a.repo, a.verif+"/spec", a.prop, drop)
		if err == nil {
			break
		}
		more := false
		for _, m := range regexp.MustCompile(`([\w/.-]*)/zz_verif_([\w]+\.go):\d+`).FindAllStringSubmatch(err.Error(), -1) {
			rel, _ := filepath.Rel(a.repo, m[1])
			f := filepath.Join(rel, m[2])
			if !drop[f] {
				drop[f] = true
				more = true
				dropWhy = append(dropWhy, f+": "+err.Error())
			}
		}
		if !more {
			break
		}
	}
	if err != nil {
		fmt.Println("the tree does not load:", err)
		violation("load.json", map[string]interface{}{"failed_obligation": "the repository and the specifications type-check", "verifier_output": err.Error()}, true)
		writeEvidence(a, nil, nil, concSum{}, 1, time.Since(t0), seed, nil)
		return 1
	}
	s, err := scanSpecs(a, drop)
	if err != nil || len(s.dir) == 0 && len(drop) == 0 {
		fmt.Println("no specifications for", a.prop, err)
		return 2
	}
	conc := make(chan *concrete, 1)
	go func() { conc <- buildConcrete(a, s, tmp) }()

	// proofs, one worker process per harness
	var names []string
	for n := range s.dir {
		names = append(names, n)
	}
	sort.Strings(names)
	results := map[string]*HarnessResult{}
	var mu sync.Mutex
	limit := 620 * time.Second
	if a.tier == "thorough" {
		limit = 3000 * time.Second
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 5)
	dl := strings.Join(sortedKeys(drop), ",")
	for _, n := range names {
		n := n
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := &HarnessResult{Name: n}
			defer func() {
				mu.Lock()
				results[n] = r
				mu.Unlock()
			}()
			if a.noProof || concreteOnly(n) {
				r.Err = "proof not attempted"
				return
			}
			left := limit - time.Since(t0)
			if left < 5*time.Second {
				r.Err = "time budget of the check exceeded"
				return
			}
			f := filepath.Join(tmp, "r_"+n+".json")
			cmd := exec.Command(os.Args[0], "-prop", a.prop, "-repo", a.repo, "-verif", a.verif, "-only", n, "-tier", a.tier, "-worker", f, "-drop", dl, "-j", strconv.Itoa(maxI(2, runtime.NumCPU()/minI(len(names), 3))))
			var buf strings.Builder
			cmd.Stdout, cmd.Stderr = &buf, &buf
			if err := cmd.Start(); err != nil {
				r.Err = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err = <-done:
			case <-time.After(left):
				cmd.Process.Kill()
				<-done
				r.Err = "verifier did not finish within its time budget"
				return
			}
			if b, e := os.ReadFile(f); e == nil {
				json.Unmarshal(b, r)
			} else {
				t := buf.String()
				if len(t) > 2000 {
					t = t[:2000]
				}
				r.Err = fmt.Sprintf("verifier worker failed: %v %s", err, t)
			}
		}()
	}
	// meanwhile, a short round of concrete runs
	c := <-conc
	secs := 3.0
	if a.tier == "thorough" {
		secs = 60
	}
	if a.conc >= 0 {
		secs = a.conc
	}
	var total concSum
	total.Covered = map[string]int{}
	total.Per = map[string]int{}
	addSum := func(s concSum) {
		total.Runs += s.Runs
		total.Skipped += s.Skipped
		for k, v := range s.Covered {
			total.Covered[k] += v
		}
		if total.Sample == nil {
			total.Sample = s.Sample
		}
	}
	var fails []*Inputs
	var abnormal []string
	search := func(secs float64, seed int, replays map[string][]string, stage string, hs map[string]bool) {
		var swg sync.WaitGroup
		sem := make(chan bool, runtime.NumCPU())
		for _, n := range names {
			if hs != nil && !hs[n] {
				continue
			}
			n := n
			swg.Add(1)
			go func() {
				defer swg.Done()
				sem <- true
				defer func() { <-sem }()
				in, sum, ab := c.run(a, s.dir[n], stage+n, []string{n}, replays[n], secs, seed)
				mu.Lock()
				defer mu.Unlock()
				addSum(sum)
				total.Per[n] += sum.Runs - sum.Skipped
				if in != nil {
					fails = append(fails, in)
				}
				if ab != "" {
					abnormal = append(abnormal, n+": "+ab)
				}
			}()
		}
		swg.Wait()
	}
	bounded := map[string]bool{}
	for _, n := range names {
		if concreteOnly(n) {
			bounded[n] = true
		}
	}
	search(secs, seed, nil, "a_", nil)
	if len(bounded) > 0 && len(fails) == 0 {
		// bounded stand-ins: these runs decide, so they get more of them
		x := 20.0
		if a.tier == "thorough" {
			x = 240
		}
		if a.conc >= 0 {
			x = a.conc
		}
		search(x, seed+100000, nil, "x_", bounded)
	}
	wg.Wait()
	bad := map[string]bool{}
	for _, n := range names {
		if !results[n].ok() && !a.noProof && !concreteOnly(n) {
			bad[n] = true
		}
	}
	if len(fails) == 0 && (len(bad) > 0 || len(drop) > 0) {
		// replay the solver's models, then search
		rep := map[string][]string{}
		for n := range bad {
			for i, m := range results[n].Models {
				f := filepath.Join(tmp, fmt.Sprintf("model_%s_%d.json", n, i))
				b, _ := json.Marshal(m)
				os.WriteFile(f, b, 0o644)
				rep[n] = append(rep[n], f)
			}
		}
		search(0.1, seed+7, rep, "b_", bad)
		if len(fails) == 0 {
			x := 45.0
			if a.tier == "thorough" {
				x = 300
			}
			for k := 0; k < 2 && len(fails) == 0; k++ {
				var hs map[string]bool
				if k == 0 && len(bad) > 0 && len(drop) == 0 {
					hs = bad
				}
				search(x, seed+11+k, nil, fmt.Sprintf("c%d_", k), hs)
			}
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Harness < fails[j].Harness })
	nv := 0
	for i, in := range fails {
		if i >= 3 {
			break
		}
		body := map[string]interface{}{"harness": in.Harness, "spec_file": s.file[in.Harness], "inputs": in, "failure": in.Failure}
		if r := results[in.Harness]; r != nil {
			body["failed_obligations"] = r.Failed
			body["verifier_error"] = r.Err
		}
		body["replay"] = fmt.Sprintf("%s/bin/goverify -prop %s -replay <this file>", a.verif, a.prop)
		violation(fmt.Sprintf("violation-%d.json", i), body, false)
		nv++
		fmt.Printf("  %s: %s\n", in.Harness, in.Failure)
	}
	if nv == 0 {
		for _, n := range names {
			if !bad[n] {
				continue
			}
			r := results[n]
			violation("obligation-"+n+".json", map[string]interface{}{"harness": n, "spec_file": s.file[n], "failed_obligations": r.Failed, "verifier_error": r.Err, "unreached": r.Unreached, "concrete": abnormal}, true)
			nv++
		}
		for i, d := range dropWhy {
			violation(fmt.Sprintf("spec-%d.json", i), map[string]interface{}{"failed_obligation": "specification file type-checks against the code: " + d}, true)
			nv++
		}
		if nv == 0 && (len(c.errs) > 0 || len(abnormal) > 0) {
			violation("concrete.json", map[string]interface{}{"failed_obligation": "harnesses run", "verifier_output": append(c.errs, abnormal...)}, true)
			nv++
		}
	}
	for _, n := range names {
		if concreteOnly(n) {
			what := "bounded stand-in"
			if strings.HasPrefix(n, "VC_") {
				what = "cross-check"
			}
			fmt.Printf("%s: %s, %d runs\n", n, what, total.Per[n])
			continue
		}
		r := results[n]
		fmt.Printf("%s: %d/%d obligations discharged %v; exec %.1f s, solver %.1f s, %d cut loops %s\n", n, r.Discharged, r.Obligations, r.By, r.ExecTime, r.SolveTime, len(r.Cut), r.Err)
		for i, o := range r.Failed {
			if i < 8 {
				fmt.Printf("    %s [%s] %s %s: %s\n", o.Status, o.Kind, o.Fn, o.Pos, o.Label)
			}
		}
		for _, u := range r.Unreached {
			fmt.Printf("    unreachable: %s\n", u)
		}
	}
	fmt.Printf("concrete cross-check: %d runs, %d outside preconditions\n", total.Runs, total.Skipped)
	for _, e := range append(c.errs, abnormal...) {
		fmt.Println("  " + e)
	}
	for _, k := range knownFindings(a) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", a.prop, k)
	}
	writeEvidence(a, names, results, total, nv, time.Since(t0), seed, s)
	if nv > 0 {
		return 1
	}
	fmt.Printf("property %s holds (%s, %.1f s)\n", a.prop, a.tier, time.Since(t0).Seconds())
	return 0
}

// concreteOnly tells what runs as compiled code only from a harness that is
// proved: VX_ harnesses are bounded stand-ins for a proof; VC_ harnesses
// cross-check, on real files and disk systems, what is proved elsewhere.
func concreteOnly(n string) bool { return strings.HasPrefix(n, "VX_") || strings.HasPrefix(n, "VC_") }

// knownFindings lists the recorded (unrepaired) findings of the property.
func knownFindings(a checkArgs) []string {
	b, err := os.ReadFile(filepath.Join(a.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	pre := "finding: property=" + a.prop + " "
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, pre) {
			r = append(r, l[len(pre):])
		}
	}
	return r
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func doReplay(a checkArgs, tmp string) int {
	b, err := os.ReadFile(a.replay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v struct {
		Harness string
		Inputs  *Inputs
	}
	if err := json.Unmarshal(b, &v); err != nil || v.Inputs == nil {
		fmt.Println("the file carries no failing input")
		return 2
	}
	s, err := scanSpecs(a, nil)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := buildConcrete(a, s, tmp)
	f := filepath.Join(tmp, "replay.json")
	j, _ := json.Marshal(v.Inputs)
	os.WriteFile(f, j, 0o644)
	in, _, ab := c.run(a, s.dir[v.Harness], "replay", nil, []string{f}, 0, 1)
	if in != nil {
		fmt.Println("fails:", in.Failure)
		return 1
	}
	fmt.Println("does not fail", ab, c.errs)
	return 0
}

func writeEvidence(a checkArgs, names []string, res map[string]*HarnessResult, total concSum, nv int, wall time.Duration, seed int, s *specSet) {
	nObl, nDis := 0, 0
	by := map[string]int{}
	funcs, assumed, cut := map[string]bool{}, map[string]bool{}, map[string]bool{}
	solver, exe := 0.0, 0.0
	q, cov := 0, 0
	var hs []interface{}
	notes := map[string]bool{}
	level := "proof"
	var boundedHs []interface{}
	crossHs := []interface{}{}
	evals := 0
	for _, n := range names {
		if strings.HasPrefix(n, "VC_") {
			crossHs = append(crossHs, map[string]interface{}{"harness": n, "runs": total.Per[n]})
			continue
		}
		if concreteOnly(n) {
			level = "exploration"
			evals += total.Per[n]
			boundedHs = append(boundedHs, map[string]interface{}{"harness": n, "runs": total.Per[n]})
			continue
		}
		r := res[n]
		nObl += r.Obligations
		nDis += r.Discharged
		for k, v := range r.By {
			by[k] += v
		}
		for _, f := range r.Funcs {
			if strings.Contains(f, "VH_") || strings.Contains(f, "vs_") || strings.Contains(f, "verifrt") {
				continue
			}
			funcs[f] = true
		}
		for _, f := range r.Assumed {
			assumed[f] = true
		}
		for _, f := range r.Cut {
			cut[f] = true
		}
		for _, f := range r.LoopNotes {
			notes[f] = true
		}
		solver += r.SolveTime
		exe += r.ExecTime
		q += r.Queries
		cov += r.Covers
		hs = append(hs, map[string]interface{}{"harness": n, "obligations": r.Obligations, "discharged": r.Discharged, "goals": r.Labels, "slowest": r.Slowest, "error": r.Err, "reachability_guards": r.Covers})
	}
	tb := []string{
		"Go front end golang.org/x/tools/go/packages + go/ssa (source to SSA)",
		"goverify: symbolic execution of SSA, term simplifier and SMT-LIB encoding (/verif/engine)",
		"SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2",
		"executable contracts in /verif/spec (the statement of the property)",
	}
	tb = append(tb, sortedKeys(assumed)...)
	assum := append([]string{
		"values of type int and slice lengths are 64-bit; slices handed to the code are shorter than 2^40 elements",
		"memory is not exhausted; no concurrent modification",
		"a library function listed in trusted_base behaves as its model says; text of error messages is not modelled",
	}, readAssumptions(a)...)
	cv := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              fmt.Sprintf("/verif/bin/goverify -check -prop %s -tier %s", a.prop, a.tier),
		"trusted_base":             tb,
		"functions_under_contract": sortedKeys(funcs),
		"discharged_by":            by,
		"solver_queries":           q,
		"solver_time_s":            solver,
		"symbolic_execution_s":     exe,
		"loops_cut_by_invariant":   sortedKeys(cut),
		"loop_notes":               sortedKeys(notes),
		"reachability_guards":      cov,
		"harnesses":                hs,
		"concrete_cross_check":     map[string]interface{}{"harnesses": crossHs, "runs": total.Runs, "outside_precondition": total.Skipped, "reached": total.Covered},
	}
	if level != "proof" {
		cv["evaluations"] = evals
		cv["distinct_nontrivial"] = evals
		cv["rule"] = "bounded stand-in for what is not proved: each run draws fresh inputs from a seeded generator; runs outside the preconditions are not counted"
		cv["samples"] = []interface{}{total.Sample}
		cv["bounded_harnesses"] = boundedHs
	}
	ev := map[string]interface{}{"property": a.prop, "tier": a.tier, "seed": seed, "level": level, "coverage": cv, "assumptions": assum, "wall_s": wall.Seconds(), "violations": nv}
	os.MkdirAll(filepath.Join(a.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(a.verif, "evidence", a.prop+".json"), b, 0o644)
}

// readAssumptions: per-property assumptions are lines "// ASSUME: ..." in its spec files.
func readAssumptions(a checkArgs) []string {
	ov, err := specFiles(a.repo, a.verif+"/spec", a.prop, nil)
	if err != nil {
		return nil
	}
	var r []string
	for _, f := range ov {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "// ASSUME: ") {
				r = append(r, strings.TrimPrefix(l, "// ASSUME: "))
			}
		}
	}
	sort.Strings(r)
	return r
}
