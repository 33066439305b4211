package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Project struct {
	base      *Exec
	baseState *State
	baseTC    *TermCtx
	repo      string
	specDir   string
	prop      string
	overlay   map[string]string // target path -> real path
	prog      *ssa.Program
	pkgs      []*packages.Package
	spkgs     map[string]*ssa.Package
	harness   []*Harness
	hpkg      map[string]string // harness -> package dir
}

// specFiles lists the overlay for one property: the runtime package, the
// common helpers and the property's own files.
func specFiles(repo, specDir, prop string, drop map[string]bool) (map[string]string, error) {
	ov := map[string]string{}
	common := map[string]string{}
	used := map[string]bool{}
	err := filepath.Walk(specDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(specDir, p)
		dir, base := filepath.Dir(rel), filepath.Base(rel)
		if dir == "verifrt" {
			ov[filepath.Join(repo, rel)] = p
			return nil
		}
		if drop[rel] {
			return nil
		}
		stem := strings.TrimSuffix(base, ".go")
		switch {
		case strings.HasPrefix(stem, "common"):
			common[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		case stem == prop || strings.HasPrefix(stem, prop+"_"):
			ov[filepath.Join(repo, dir, "zz_verif_"+base)] = p
			used[filepath.Join(repo, dir)] = true
		}
		return nil
	})
	for t, p := range common {
		if used[filepath.Dir(t)] {
			ov[t] = p
		}
	}
	return ov, err
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

func loadProject(repo, specDir, prop string, drop map[string]bool) (*Project, error) {
	ov, err := specFiles(repo, specDir, prop, drop)
	if err != nil {
		return nil, err
	}
	p := &Project{repo: repo, specDir: specDir, prop: prop, overlay: ov, spkgs: map[string]*ssa.Package{}, hpkg: map[string]string{}}
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
	}
	pats := []string{"./..."}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, q := range pk {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return p, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	p.pkgs = pk
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	for i, s := range sp {
		if s == nil {
			return p, fmt.Errorf("no ssa for %s", pk[i].PkgPath)
		}
		s.Build()
		p.spkgs[s.Pkg.Path()] = s
	}
	p.prog = prog
	pre := "VH_" + prop + "_"
	for path, s := range p.spkgs {
		for name, m := range s.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, pre) {
				p.harness = append(p.harness, &Harness{Name: name, Fn: f})
				p.hpkg[name] = strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
			}
		}
	}
	sort.Slice(p.harness, func(i, j int) bool { return p.harness[i].Name < p.harness[j].Name })
	return p, nil
}

// initState runs package initialisation concretely.
// initState is the state after package initialisation; it is computed once per
// harness and shared by all cases (states are persistent).
func (p *Project) initState(x *Exec) *State {
	if p.base == nil || p.baseTC != tc {
		b := newExec(p.prog)
		p.baseState = p.initState0(b)
		p.base, p.baseTC = b, tc
	}
	b := p.base
	x.nobj = b.nobj
	x.objs = append([]*Obj{}, b.objs...)
	for k, v := range b.globals {
		x.globals[k] = v
	}
	for k, v := range b.memo {
		x.memo[k] = v
	}
	x.infos = b.infos
	return p.baseState.clone()
}

func (p *Project) initState0(x *Exec) *State {
	st := &State{pc: &PC{}}
	x.inits = true
	x.quiet++
	var paths []string
	for k := range p.spkgs {
		paths = append(paths, k)
	}
	// dependency order
	done := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if done[path] {
			return
		}
		done[path] = true
		s := p.spkgs[path]
		if s == nil {
			return
		}
		for _, imp := range s.Pkg.Imports() {
			visit(imp.Path())
		}
		f := s.Func("init")
		if f == nil || s.Pkg.Name() == "main" || strings.HasSuffix(path, "/verifrt") || strings.HasSuffix(path, "/data") {
			return
		}
		ns, _ := x.callFn(f, nil, nil, st)
		if ns != nil {
			st = ns
		}
	}
	sort.Strings(paths)
	for _, q := range paths {
		visit(q)
	}
	x.inits = false
	x.quiet--
	x.tabulate(st)
	return st
}

// tabulate gives tables of constants (maps, and texts in arrays) set up by the
// package initialisers a canonical form, in which looking up an unknown key
// stays a single term.
func (x *Exec) tabulate(st *State) {
	for id := 1; id <= len(x.objs); id++ {
		u := st.mem.get(id)
		if u == nil {
			continue
		}
		os := u.(*ObjState)
		o := x.objs[id-1]
		var ns *ObjState
		for p, l := range os.leaves {
			if l.arr == nil {
				continue
			}
			_, str := os.leaves[strings.TrimSuffix(p, "#len")+"#c"]
			if !(o.isMap || strings.HasSuffix(p, "#c") || strings.HasSuffix(p, "#len") && str) {
				continue
			}
			m := map[uint64]uint64{}
			if !constEntries(l.arr, m) || len(m) < 8 {
				continue
			}
			f := canonTable(m, l.arr.w, strings.HasSuffix(p, "#c"))
			if f == nil {
				continue
			}
			if ns == nil {
				ns = os.clone()
			}
			ns.leaves[p] = Leaf{arr: f}
		}
		if ns != nil {
			st.mem = st.mem.set(id, ns)
		}
	}
}

// constEntries collects the entries of an array all of whose entries are
// constants (0 where none is given).
func constEntries(f *FArr, m map[uint64]uint64) bool {
	put := func(i, v uint64) {
		if _, ok := m[i]; !ok {
			m[i] = v
		}
	}
	for len(m) < 1<<16 {
		switch f.op {
		case FConst:
			return f.t[0].isConst() && f.t[0].v == 0
		case FStore:
			if !f.t[0].isConst() || !f.t[1].isConst() {
				return false
			}
			put(f.t[0].v, f.t[1].v)
		case FCopy:
			if !f.t[0].isConst() || !f.t[1].isConst() || !f.t[2].isConst() || f.t[1].v > 4096 {
				return false
			}
			for j := uint64(0); j < f.t[1].v; j++ {
				v := sel(f.f[1], mkConst(f.t[2].v+j, 64))
				if !v.isConst() {
					return false
				}
				put(f.t[0].v+j, v.v)
			}
		default:
			return false
		}
		f = f.f[0]
	}
	return false
}

func canonTable(m map[uint64]uint64, w uint8, texts bool) *FArr {
	var ks []uint64
	for k, v := range m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	if len(ks) == 0 {
		return mkFConst(mkConst(0, w))
	}
	if w == 0 {
		// keys present: intervals
		type iv struct{ lo, hi uint64 }
		var ivs []iv
		for _, k := range ks {
			if n := len(ivs); n > 0 && ivs[n-1].hi+1 == k {
				ivs[n-1].hi = k
			} else {
				ivs = append(ivs, iv{k, k})
			}
		}
		if len(ivs) > 4 || ks[len(ks)-1] >= 1<<60 {
			return nil
		}
		return mkFLambdaIn(0, -1<<63, 1<<63-1, func(i *Term) *Term { // keys may be negative
			r := tFalse
			for _, v := range ivs {
				r = mkOr(r, mkAnd(mkSle(mkConst(v.lo, 64), i), mkSle(i, mkConst(v.hi, 64))))
			}
			return r
		})
	}
	if !texts {
		if ks[len(ks)-1] >= 1<<14 {
			return nil
		}
		lit := make([]uint64, ks[len(ks)-1]+1)
		for _, k := range ks {
			lit[k] = m[k]
		}
		return mkFLit(lit, w)
	}
	stride, rows := uint64(1), uint64(0)
	for _, k := range ks {
		for k&(1<<32-1) >= stride {
			stride *= 2
		}
		rows = k>>32 + 1
	}
	if stride*rows > 1<<16 {
		return nil
	}
	lit := make([]uint64, stride*rows)
	for _, k := range ks {
		lit[k>>32*stride+k&(1<<32-1)] = m[k]
	}
	return mkFTab(lit, stride, w)
}

var _ = types.Typ
