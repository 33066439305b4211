package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bytesType = types.NewSlice(types.Typ[types.Uint8])

// ufStr is a text that depends on the arguments only (an uninterpreted
// function of them).
func ufStr(name string, lo, hi int64, args ...*Term) *StrV { return ufStrA(name, lo, hi, nil, args...) }

func ufStrA(name string, lo, hi int64, arr *FArr, args ...*Term) *StrV {
	v := mkVar("bnd:text", 64)
	v.bnd = true
	v.setS(0, 1<<60)
	ufRange[name+".len"] = [2]int64{lo, hi}
	b := mkUFA(name+".c", 8, arr, append(append([]*Term(nil), args...), v)...)
	n := mkUFA(name+".len", 64, arr, args...)
	return &StrV{arr: internF(FLambda, 8, nil, []*Term{v, b}, "", nil), off: k64(0), len: n}
}

// decimal is strconv.Itoa of a 64-bit signed value, or the text of %<spec>d.
func decimal(v *Term, spec string) *StrV {
	if v.isConst() {
		if spec == "" {
			return strConst(strconv.Itoa(int(sext64(v.v, v.w))))
		}
		return strConst(fmt.Sprintf("%"+spec+"d", sext64(v.v, v.w)))
	}
	return ufStr("text:%"+spec+"d", 1, 64, v)
}

func (x *Exec) bufOf(st *State, v Value, pos token.Pos) (*PtrV, *SliceV) {
	p := asPtr(v)
	if p.obj == nil || isDimmed(p.obj, p.path) {
		unsup("bytes.Buffer inside an array")
	}
	s, ok := st.loadAt(x, p.obj, p.path+".buf", p.idx, bytesType).(*SliceV)
	if !ok {
		unsup("bytes.Buffer of unknown contents")
	}
	return p, s
}

func (x *Exec) bufAppend(st *State, v Value, s Value, pos token.Pos) {
	p, b := x.bufOf(st, v, pos)
	st.storeAt(x, p.obj, p.path+".buf", p.idx, bytesType, x.doAppend(st, b, s, pos))
}

func byteStr(t *Term) *StrV {
	return &StrV{arr: mkFStore(mkFConst(zeroTerm(8)), k64(0), t), off: k64(0), len: k64(1)}
}

func (x *Exec) bufString(st *State, v Value, pos token.Pos) *StrV {
	_, b := x.bufOf(st, v, pos)
	if b.obj == nil {
		return strConst("")
	}
	return normStr(&StrV{arr: st.leafArr(st.readable(b.obj), b.path, 8), off: b.off, len: b.len})
}

func init() {
	r := "(*bytes.Buffer)."
	m := map[string]modelFn{
		r + "WriteByte": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			x.bufAppend(st, a[0], byteStr(asTerm(a[1])), pos)
			return nilErr()
		},
		r + "WriteString": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			x.bufAppend(st, a[0], a[1], pos)
			return &TupleV{v: []Value{asStr(a[1]).len, nilErr()}}
		},
		r + "Write": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			x.bufAppend(st, a[0], a[1], pos)
			return &TupleV{v: []Value{asSlice(a[1]).len, nilErr()}}
		},
		r + "String": func(x *Exec, st *State, a []Value, pos token.Pos) Value { return x.bufString(st, a[0], pos) },
		r + "Len": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			_, b := x.bufOf(st, a[0], pos)
			return b.len
		},
		"regexp.MustCompile": func(x *Exec, st *State, a []Value, pos token.Pos) Value {
			o := x.newObj("regexp:"+concreteName(a[0]), types.NewStruct(nil, nil), false)
			st.mem = st.mem.set(o.id, &ObjState{leaves: map[string]Leaf{}})
			return &PtrV{obj: o, idx: k64(0), isnil: tFalse, et: o.typ}
		},
		"strconv.Itoa": func(x *Exec, st *State, a []Value, pos token.Pos) Value { return decimal(asTerm(a[0]), "") },
	}
	for k, f := range m {
		models[k] = f
	}
	old := models["fmt.Fprintf"]
	models["fmt.Fprintf"] = func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		if iv, ok := a[0].(*IfaceV); ok && len(iv.alts) == 1 && iv.alts[0].typ != nil && typeStr(iv.alts[0].typ) == "*bytes.Buffer" {
			s := x.sprintf(st, a[1:])
			x.bufAppend(st, iv.alts[0].val, s, pos)
			return &TupleV{v: []Value{asStr(s).len, nilErr()}}
		}
		return old(x, st, a, pos)
	}
}

// opaqueText is the text a function returns, as an uninterpreted function of
// its arguments (the contract that it depends on nothing else and changes
// nothing is proved separately).
func (x *Exec) opaqueText(st *State, fn string, args []Value) Value {
	var ts []*Term
	var arr *FArr
	var add func(v Value)
	add = func(v Value) {
		switch v := v.(type) {
		case *Term:
			ts = append(ts, v)
		case *SliceV:
			ts = append(ts, v.len)
			if v.obj == nil {
				ts = append(ts, k64(0))
				return
			}
			if arr != nil {
				unsup("%s as an opaque function: several slices", fn)
			}
			arr = st.leafArr(st.readable(v.obj), v.path, 8)
			ts = append(ts, v.off)
		case *StrV:
			if arr != nil {
				unsup("%s as an opaque function: several texts", fn)
			}
			arr = v.arr
			ts = append(ts, v.len, v.off)
		case *AggV:
			var ks []string
			for k := range v.leaves {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if v.leaves[k].arr != nil {
					unsup("%s as an opaque function of arrays", fn)
				}
				add(v.leaves[k].val)
			}
		default:
			unsup("%s as an opaque function of %T", fn, v)
		}
	}
	for _, a := range args {
		add(a)
	}
	return ufStrA("opaque:"+fn, 0, 1<<20, arr, ts...)
}

var byteClass = regexp.MustCompile(`^\[\\x([0-7][0-9A-Fa-f])-\\x([0-7][0-9A-Fa-f])\]$`)

// regexpCall: replacing the matches of a class of single ASCII characters goes
// byte by byte.
func (x *Exec) regexpCall(st *State, fn *ssa.Function, args []Value) ([]ret, bool) {
	switch fn.RelString(nil) {
	case "strconv.ParseUint":
		f := x.rtFunc("ParseUint")
		if f == nil {
			return nil, false
		}
		return x.callMulti(f, args, nil, st), true
	case "(*regexp.Regexp).ReplaceAllStringFunc":
		p := asPtr(args[0])
		if p.obj == nil || !strings.HasPrefix(p.obj.name, "regexp:") {
			return nil, false
		}
		pat := strings.TrimPrefix(p.obj.name, "regexp:")
		if i := strings.LastIndexByte(pat, '#'); i >= 0 {
			pat = pat[:i]
		}
		m := byteClass.FindStringSubmatch(pat)
		if m == nil {
			return nil, false
		}
		lo, _ := strconv.ParseUint(m[1], 16, 8)
		hi, _ := strconv.ParseUint(m[2], 16, 8)
		f := x.rtFunc("ReplaceClass")
		if f == nil {
			return nil, false
		}
		return x.callMulti(f, []Value{mkConst(lo, 8), mkConst(hi, 8), args[1], args[2]}, nil, st), true
	}
	return nil, false
}

// rtFunc is a function of verifrt that says what a library function does.
func (x *Exec) rtFunc(name string) *ssa.Function {
	for _, k := range x.prog.AllPackages() {
		if k.Pkg.Path() == modPath+"/verifrt" {
			return k.Func(name)
		}
	}
	return nil
}
