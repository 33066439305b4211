package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A ghost file system: the files a harness names (verifrt.File), standard
// input and standard output. Each is an object with the leaves E (exists), L
// (length) and [] (contents), so that it is part of the symbolic state and
// merges with it. Assumed: files with different names are different files,
// reading, writing and closing them do not fail, and nobody else changes them.

type fsEntry struct {
	name *StrV
	obj  *Obj
}

type fsHandle struct {
	ent  *fsEntry
	name *StrV
}

const fsBad = "the file name is one the harness named"

var byteT = types.Typ[types.Byte]

func (x *Exec) fsNew(st *State, name *StrV, label string, exists *Term) *fsEntry {
	o := x.newObj("file "+label, byteT, true)
	st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{"E": {val: exists}, "L": {val: k64(0)}, "[]": {arr: mkFConst(zeroTerm(8))}}})
	return &fsEntry{name: name, obj: o}
}

// fsFile introduces a file of arbitrary name, different from all others so far.
func (x *Exec) fsFile(st *State, label string) *StrV {
	n := mkVar("in"+x.instTag+":"+label+"#len", 64)
	n.setS(1, 4096)
	s := &StrV{arr: mkFVar("in"+x.instTag+":"+label, 8), off: k64(0), len: n}
	x.assumed["ghost file system: different names are different files; file operations succeed on files that exist; no one else changes them"] = true
	st.assume(mkNot(x.strEq(st, s, strConst("-"))))
	for _, e := range x.fs {
		st.assume(mkNot(x.strEq(st, e.name, s)))
	}
	x.opaqueArr[s.arr] = true
	x.fs = append(x.fs, x.fsNew(st, s, label, tFalse))
	return s
}

func (x *Exec) canonName(s *StrV) *StrV {
	if o, ok := x.cleaned[strKey(s)]; ok {
		return o
	}
	return s
}

func strKey(s *StrV) string { return fmt.Sprintf("%d.%d.%d", s.arr.id, s.off.id, s.len.id) }

// fsFind gives the files a name may stand for.
func (x *Exec) fsFind(st *State, v Value, pos token.Pos) *fsEntry {
	s := x.canonName(asStr(v))
	for _, e := range x.fs {
		if st.decide(x.strEq(st, e.name, s)).isTrue() {
			return e
		}
	}
	unsup("a file the harness did not name")
	return nil
}

func (x *Exec) fsLeaf(st *State, e *fsEntry, k string) *Term {
	return st.readable(e.obj).leaves[k].val.(*Term)
}

// fsData is a fresh slice holding a file's contents.
func (x *Exec) fsData(st *State, e *fsEntry) *SliceV {
	os := st.readable(e.obj)
	n := os.leaves["L"].val.(*Term)
	s := x.newSlice(st, "contents of "+e.obj.name, byteT, n, n)
	st.mem = st.mem.set(s.obj.id, &ObjState{leaves: map[string]Leaf{"[]": {arr: os.leaves["[]"].arr}}})
	return s
}

func (x *Exec) fsPut(st *State, e *fsEntry, d *SliceV) {
	arr := mkFConst(zeroTerm(8))
	if d.obj != nil {
		arr = shiftArr(st.leafArr(st.readable(d.obj), d.path, 8), d.off, 8, d.len)
	}
	ns := st.writable(x, e.obj)
	ns.leaves["E"], ns.leaves["L"], ns.leaves["[]"] = Leaf{val: tTrue}, Leaf{val: d.len}, Leaf{arr: arr}
	if x.track != nil {
		for _, k := range []string{"E", "L", "[]"} {
			x.track.note(e.obj, k)
		}
	}
}

func (x *Exec) fsAppend(st *State, e *fsEntry, d *SliceV) {
	if d.obj != nil {
		x.fsAppendArr(st, e, st.leafArr(st.readable(d.obj), d.path, 8), d.off, d.len)
	}
}

func (x *Exec) fsAppendArr(st *State, e *fsEntry, src *FArr, off, ln *Term) {
	os := st.readable(e.obj)
	n := os.leaves["L"].val.(*Term)
	ns := st.writable(x, e.obj)
	if n.isConst() && n.v == 0 {
		ns.leaves["[]"] = Leaf{arr: shiftArr(src, off, 8, ln)}
	} else {
		ns.leaves["[]"] = Leaf{arr: mkFCopy(os.leaves["[]"].arr, n, ln, src, off)}
	}
	ns.leaves["L"] = Leaf{val: mkAdd(n, ln)}
	if x.track != nil {
		x.track.note(e.obj, "[]")
		x.track.note(e.obj, "L")
	}
}

// printStrings models printing strings, which is all of fmt that is modelled
// exactly; anything else printed leaves standard output unknown.
func (x *Exec) printStrings(st *State, v Value, newline bool) bool {
	sl := asSlice(v)
	if !sl.len.isConst() || sl.len.v != 1 || !newline {
		return false
	}
	iv, ok := st.loadAt(x, sl.obj, sl.path, sl.off, sl.et).(*IfaceV)
	if !ok || len(iv.alts) != 1 || !plainString(iv.alts[0].typ) {
		return false
	}
	s, ok := iv.alts[0].val.(*StrV)
	if !ok {
		return false
	}
	s = strCat(s, strConst("\n"))
	x.fsAppendArr(st, x.stdout, s.arr, s.off, s.len)
	return true
}

func plainString(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, named := t.(*types.Named); named {
		return false // might have a String method
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func nilErr() *IfaceV { return &IfaceV{isnil: tTrue} }

func fsErr(what string) *IfaceV {
	return &IfaceV{isnil: tFalse, alts: []IfaceAlt{{cond: tTrue, val: &OpaqueV{what}}}}
}

// fsFork splits on whether the file exists.
func (x *Exec) fsFork(st *State, e *fsEntry, yes, no func(s *State) Value) []ret {
	ex := st.decide(x.fsLeaf(st, e, "E"))
	var out []ret
	if !ex.isFalse() {
		s := st
		if !ex.isTrue() {
			s = st.clone()
			x.assumeIn(s, ex)
		}
		out = append(out, ret{s, yes(s)})
	}
	if !ex.isTrue() {
		s := st
		if !ex.isFalse() {
			s = st.clone()
			x.assumeIn(s, mkNot(ex))
		}
		out = append(out, ret{s, no(s)})
	}
	return out
}

func (x *Exec) fsHandleOf(v Value) *fsHandle {
	switch p := v.(type) {
	case *PtrV:
		if p.obj != nil {
			if h := x.handles[p.obj]; h != nil {
				return h
			}
		}
	case *OpaqueV:
		if p.what == "os.Stdin" && x.stdin != nil {
			return &fsHandle{ent: x.stdin, name: strConst("/dev/stdin")}
		}
		if p.what == "os.Stdout" && x.stdout != nil {
			return &fsHandle{ent: x.stdout, name: strConst("/dev/stdout")}
		}
	case *IfaceV:
		if len(p.alts) == 1 {
			return x.fsHandleOf(p.alts[0].val)
		}
	}
	unsup("use of a file the model does not know")
	return nil
}

func (x *Exec) fsOpen(st *State, e *fsEntry, name *StrV, t types.Type) Value {
	o := x.newObj("handle of "+e.obj.name, byteT, false)
	st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{"R": {val: tFalse}}})
	x.handles[o] = &fsHandle{ent: e, name: name}
	return &PtrV{obj: o, path: "", idx: k64(0), isnil: tFalse, et: under(t).(*types.Pointer).Elem()}
}

// opaqueFn is an uninterpreted function of a string.
func (x *Exec) opaqueFn(f string, s *StrV) *StrV {
	r := x.opaqueStr(f + ":" + strKey(s))
	x.opaqueArr[r.arr] = true
	return r
}

func resultType(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }

// fsCall models the file functions of the standard library.
func (x *Exec) fsCall(st *State, fn *ssa.Function, a []Value, pos token.Pos) ([]ret, bool) {
	name := fn.RelString(nil)
	tup := func(vs ...Value) Value { return &TupleV{v: vs} }
	nilBytes := func() Value { return zeroValue(types.NewSlice(byteT)) }
	switch name {
	case "os.ReadFile":
		e := x.fsFind(st, a[0], pos)
		return x.fsFork(st, e, func(s *State) Value { return tup(x.fsData(s, e), nilErr()) }, func(s *State) Value { return tup(nilBytes(), fsErr("fs:notexist")) }), true
	case "os.Open":
		e := x.fsFind(st, a[0], pos)
		t := resultType(fn, 0)
		return x.fsFork(st, e, func(s *State) Value { return tup(x.fsOpen(s, e, asStr(a[0]), t), nilErr()) },
			func(s *State) Value { return tup(zeroValue(t), fsErr("fs:notexist")) }), true
	case "os.Stat", "os.Lstat":
		e := x.fsFind(st, a[0], pos)
		return x.fsFork(st, e, func(s *State) Value {
			return tup(&IfaceV{isnil: tFalse, alts: []IfaceAlt{{cond: tTrue, val: &OpaqueV{"file information"}}}}, nilErr())
		}, func(s *State) Value { return tup(&IfaceV{isnil: tTrue}, fsErr("fs:notexist")) }), true
	case "os.WriteFile":
		e := x.fsFind(st, a[0], pos)
		x.fsPut(st, e, asSlice(a[1]))
		return one(st, nilErr()), true
	case "io.ReadAll":
		h := x.fsHandleOf(asIface(a[0]))
		if p, ok := asIface(a[0]).alts[0].val.(*PtrV); ok {
			hs := st.writable(x, p.obj)
			if !hs.leaves["R"].val.(*Term).isFalse() {
				unsup("a file read twice through one handle")
			}
			hs.leaves["R"] = Leaf{val: tTrue}
		}
		return one(st, tup(x.fsData(st, h.ent), nilErr())), true
	case "(*os.File).Close":
		x.fsHandleOf(a[0])
		return one(st, nilErr()), true
	case "(*os.File).Name":
		return one(st, x.fsHandleOf(a[0]).name), true
	case "(*os.File).Write":
		h := x.fsHandleOf(a[0])
		if h.ent != x.stdout {
			unsup("write through a file opened for reading")
		}
		d := asSlice(a[1])
		x.fsAppend(st, h.ent, d)
		return one(st, tup(d.len, nilErr())), true
	case "errors.Is":
		e, t := asIface(a[0]), asIface(a[1])
		if len(t.alts) != 1 {
			return nil, false
		}
		tv, ok := t.alts[0].val.(*OpaqueV)
		if !ok || tv.what != "io/fs.ErrNotExist" && tv.what != "os.ErrNotExist" {
			return nil, false
		}
		return one(st, x.isNotExist(e)), true
	case "os.IsNotExist":
		return one(st, x.isNotExist(asIface(a[0]))), true
	case "path/filepath.Clean", "path.Clean":
		s := asStr(a[0])
		if c, ok := s.concrete(); ok {
			return one(st, strConst(path.Clean(c))), true
		}
		if !x.opaqueArr[s.arr] {
			return nil, false
		}
		x.assumed["filepath.Clean names the same file and keeps the extension of a file's name"] = true
		r := x.opaqueFn("clean", s)
		x.cleaned[strKey(r)] = x.canonName(s)
		return one(st, r), true
	case "path.Ext", "path/filepath.Ext":
		s := asStr(a[0])
		if c, ok := s.concrete(); ok {
			return one(st, strConst(path.Ext(c))), true
		}
		s = x.canonName(s)
		if !x.opaqueArr[s.arr] {
			return nil, false
		}
		x.assumed["path.Ext as an uninterpreted function of the name (the contracts are stated with it)"] = true
		return one(st, x.opaqueFn("ext", s)), true
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		if x.stdout != nil && !x.printStrings(st, a[0], name == "fmt.Println") {
			x.taintObj(st, x.stdout.obj, "printed to")
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if x.stdout != nil {
			iv := asIface(a[0])
			for _, al := range iv.alts {
				if ov, ok := al.val.(*OpaqueV); !ok || ov.what != "os.Stderr" {
					x.taintObj(st, x.stdout.obj, "printed to")
				}
			}
		}
	}
	return nil, false
}

func (x *Exec) isNotExist(e *IfaceV) *Term {
	r := tFalse
	for _, al := range e.alts {
		ov, ok := al.val.(*OpaqueV)
		if !ok || al.typ != nil || !strings.HasPrefix(ov.what, "fs:") {
			unsup("errors.Is on an error of unknown origin")
		}
		if ov.what == "fs:notexist" {
			r = mkOr(r, mkAnd(mkNot(e.isnil), al.cond))
		}
	}
	return r
}

// fsVrt models the file primitives of verifrt.
func (x *Exec) fsVrt(st *State, name string, a []Value, fn *ssa.Function, pos token.Pos) (*State, Value, bool) {
	switch name {
	case "File":
		return st, x.fsFile(st, concreteName(a[0])), true
	case "PutScratch":
		x.fsPut(st, x.fsFind(st, a[0], pos), asSlice(a[1]))
		return st, nil, true
	case "GetScratch":
		e := x.fsFind(st, a[0], pos)
		d := x.fsData(st, e)
		ex := x.fsLeaf(st, e, "E")
		if !st.decide(ex).isTrue() {
			d.len = mkIte(ex, d.len, k64(0))
			d.cap = d.len
		}
		return st, &TupleV{v: []Value{d, ex}}, true
	case "OpenScratch":
		e := x.fsFind(st, a[0], pos)
		x.oblige(st, "assert", "the file to open exists", x.fsLeaf(st, e, "E"), pos)
		return st, x.fsOpen(st, e, asStr(a[0]), resultType(fn, 0)), true
	case "NoOtherFiles":
		return st, nil, true
	case "Std":
		if x.stdin != nil {
			unsup("Std twice")
		}
		x.stdin = x.fsNew(st, nil, "stdin", tTrue)
		x.stdout = x.fsNew(st, nil, "stdout", tTrue)
		x.fsPut(st, x.stdin, asSlice(a[0]))
		f := a[1].(*FuncV)
		s, _ := x.mergeRets(x.callStatic(st, f.fn, nil, f.binds, nil))
		if s == nil {
			return nil, nil, true
		}
		d := x.fsData(s, x.stdout)
		x.stdin, x.stdout = nil, nil
		return s, d, true
	}
	return nil, nil, false
}
