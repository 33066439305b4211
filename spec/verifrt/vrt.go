// Package verifrt is the runtime of the verification harnesses. The verifier
// gives the functions below a symbolic meaning (inputs are arbitrary, Assert
// is a proof obligation); compiled normally, the same harness runs on concrete
// inputs, which is how counterexamples are replayed against the real code.
package verifrt

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- harness vocabulary

type skip struct{}
type failure struct{ msg string }

// Inputs is a recorded or given assignment of harness inputs.
type Inputs struct {
	Harness string                       `json:"harness"`
	Failure string                       `json:"failure,omitempty"`
	Scalars map[string]string            `json:"scalars,omitempty"`
	Bytes   map[string]string            `json:"bytes,omitempty"`  // hex
	Sparse  map[string]map[string]uint64 `json:"sparse,omitempty"` // index -> value, default 0
	Vecs    map[string][]uint64          `json:"vecs,omitempty"`

	variant int // how cells a solver model leaves open are filled
}

func (in *Inputs) open(r *Rand) uint64 {
	switch in.variant {
	case 0:
		return 0
	case 1:
		return 0xff
	case 2:
		return uint64(r.Pick(0, 0, 0, 1, 0xff, 0x80))
	}
	return r.U64()
}

type run struct {
	rng   *Rand
	fix   *Inputs
	rec   Inputs
	files []string // names drawn with File
	temp  []string
}

var cur *run
var curMu sync.Mutex
var startedAt int64

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

// NewRand is a generator with the given seed (a drawn input of the harness).
func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Byte() byte        { return byte(r.U64()) }
func (r *Rand) Bool() bool        { return r.U64()&1 == 1 }
func (r *Rand) Chance(n int) bool { return r.Intn(n) == 0 }
func (r *Rand) Pick(bs ...byte) byte {
	return bs[r.Intn(len(bs))]
}
func (r *Rand) PickInt(is ...int) int {
	return is[r.Intn(len(is))]
}
func (r *Rand) PickStr(ss ...string) string {
	return ss[r.Intn(len(ss))]
}
func (r *Rand) Fill(b []byte) {
	for i := range b {
		b[i] = r.Byte()
	}
}

func scalar(name string, gen func(r *Rand) uint64) uint64 {
	if _, dup := cur.rec.Scalars[name]; dup {
		panic("harness error: input " + name + " drawn twice")
	}
	var v uint64
	ok := false
	if cur.fix != nil {
		if s, has := cur.fix.Scalars[name]; has {
			v, _ = strconv.ParseUint(s, 10, 64)
			ok = true
		}
	}
	if !ok {
		v = gen(cur.rng)
	}
	cur.rec.Scalars[name] = strconv.FormatUint(v, 10)
	return v
}

func edgy(r *Rand, bits uint) uint64 {
	m := uint64(1)<<bits - 1
	if bits == 64 {
		m = ^uint64(0)
	}
	switch r.Intn(6) {
	case 0:
		return []uint64{0, 1, 2, m, m - 1, m >> 1, m>>1 + 1}[r.Intn(7)] & m
	case 1:
		return uint64(r.Intn(40)) & m
	case 2:
		return (uint64(1) << uint(r.Intn(int(bits)))) & m
	}
	return r.U64() & m
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(scalar(name, func(r *Rand) uint64 { return edgy(r, 8) })) }

// ByteGen is an arbitrary byte; gen only guides concrete runs.
func ByteGen(name string, gen func(r *Rand) byte) byte {
	return byte(scalar(name, func(r *Rand) uint64 { return uint64(gen(r)) }))
}

// U16 is an arbitrary uint16.
func U16(name string) uint16 {
	return uint16(scalar(name, func(r *Rand) uint64 { return edgy(r, 16) }))
}

// U16Gen is an arbitrary uint16; gen only guides concrete runs.
func U16Gen(name string, gen func(r *Rand) uint16) uint16 {
	return uint16(scalar(name, func(r *Rand) uint64 { return uint64(gen(r)) }))
}

// U32 is an arbitrary uint32.
func U32(name string) uint32 {
	return uint32(scalar(name, func(r *Rand) uint64 { return edgy(r, 32) }))
}

// U64 is an arbitrary uint64.
func U64(name string) uint64 { return scalar(name, func(r *Rand) uint64 { return edgy(r, 64) }) }

// Bool is an arbitrary bool.
func Bool(name string) bool {
	return scalar(name, func(r *Rand) uint64 { return r.U64() & 1 })&1 == 1
}

// Int is an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(scalar(name, func(r *Rand) uint64 {
		n := hi - lo + 1
		switch r.Intn(5) {
		case 0:
			c := []int{lo, lo + 1, hi, hi - 1}[r.Intn(4)]
			if c >= lo && c <= hi {
				return uint64(c)
			}
		case 1:
			if n > 64 {
				return uint64(lo + r.Intn(64))
			}
		case 2:
			c := r.Intn(hi/256+2)*256 + r.Intn(3) - 1
			if c >= lo && c <= hi {
				return uint64(c)
			}
		}
		return uint64(lo + r.Intn(n))
	}))
	if v < lo || v > hi {
		panic(skip{})
	}
	return v
}

// Choose is an arbitrary int in [0,n), n a constant: the proof distinguishes
// the n cases and runs the harness once for each.
func Choose(name string, n int) int {
	v := int(scalar(name, func(r *Rand) uint64 { return uint64(r.Intn(n)) }))
	if v < 0 || v >= n {
		panic(skip{})
	}
	return v
}

// IntGen is an arbitrary int in [lo,hi]; gen only guides concrete runs.
func IntGen(name string, lo, hi int, gen func(r *Rand) int) int {
	v := int(scalar(name, func(r *Rand) uint64 { return uint64(gen(r)) }))
	if v < lo || v > hi {
		panic(skip{})
	}
	return v
}

func fixedBytes(name string, n int) ([]byte, bool) {
	if cur.fix == nil {
		return nil, false
	}
	if h, ok := cur.fix.Bytes[name]; ok {
		b, _ := hex.DecodeString(h)
		if len(b) == n {
			return b, true
		}
	}
	if m, ok := cur.fix.Sparse[name]; ok {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(cur.fix.open(cur.rng))
		}
		for k, v := range m {
			i, err := strconv.ParseUint(k, 10, 64)
			if err == nil && i < uint64(n) {
				b[i] = byte(v)
			}
		}
		return b, true
	}
	return nil, false
}

func drawBytes(name string, n int, gen func(r *Rand) []byte) []byte {
	if _, dup := cur.rec.Bytes[name]; dup {
		panic("harness error: input " + name + " drawn twice")
	}
	if n < 0 || n > 64<<20 {
		panic(skip{})
	}
	b, ok := fixedBytes(name, n)
	if !ok {
		b = gen(cur.rng)
		if len(b) != n {
			c := make([]byte, n)
			copy(c, b)
			b = c
		}
	}
	cur.rec.Bytes[name] = hex.EncodeToString(b)
	return append(make([]byte, 0, n), b...)
}

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	return drawBytes(name, n, func(r *Rand) []byte {
		b := make([]byte, n)
		switch r.Intn(4) {
		case 0:
			for i := range b {
				b[i] = r.Pick(0, 1, 0xff, 0x80, 0x7f)
			}
		case 1:
			for k := 0; k < n/8+1 && n > 0; k++ {
				b[r.Intn(n)] = r.Byte()
			}
		default:
			r.Fill(b)
		}
		return b
	})
}

// BytesGen is an arbitrary byte slice of length n; gen only guides concrete runs.
func BytesGen(name string, n int, gen func(r *Rand) []byte) []byte { return drawBytes(name, n, gen) }

// Str is an arbitrary string of length n.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// StrGen is an arbitrary string of length n; gen only guides concrete runs.
func StrGen(name string, n int, gen func(r *Rand) string) string {
	return string(drawBytes(name, n, func(r *Rand) []byte { return []byte(gen(r)) }))
}

// Fill makes every scalar inside *p arbitrary.
func Fill(name string, p interface{}) {
	fill(name, []reflect.Value{reflect.ValueOf(p).Elem()}, false)
}

// FillGen is Fill for a fixed array of integers; gen only guides concrete runs.
func FillGen(name string, p interface{}, gen func(r *Rand) []uint64) {
	fillHook = gen
	fill(name, []reflect.Value{reflect.ValueOf(p).Elem()}, false)
	fillHook = nil
}

var fillHook func(r *Rand) []uint64

// FillSlice makes *p (a pointer to a slice) an arbitrary slice of length n;
// gen makes it in concrete runs. A second call of the same name makes another
// slice with the same elements.
func FillSlice(name string, p interface{}, n int, gen func(r *Rand) interface{}) {
	u, ok := cur.rec.Scalars[name]
	seed, _ := strconv.ParseUint(u, 10, 64)
	if !ok {
		seed = scalar(name, func(r *Rand) uint64 { return r.U64() })
	}
	v := reflect.ValueOf(gen(NewRand(seed)))
	if v.Len() != n {
		panic(skip{})
	}
	reflect.ValueOf(p).Elem().Set(v)
}

// Clone copies a byte slice.
func Clone(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func fill(name string, vs []reflect.Value, dim bool) {
	if len(vs) == 0 {
		return
	}
	t := vs[0].Type()
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			var fs []reflect.Value
			for _, v := range vs {
				fs = append(fs, v.Field(i))
			}
			fill(name+"."+t.Field(i).Name, fs, dim)
		}
		return
	case reflect.Array:
		var fs []reflect.Value
		for _, v := range vs {
			for i := 0; i < t.Len(); i++ {
				fs = append(fs, v.Index(i))
			}
		}
		fill(name+"[]", fs, true)
		return
	}
	bits := uint(1)
	if t.Kind() != reflect.Bool {
		bits = uint(t.Bits())
	}
	set := func(v reflect.Value, u uint64) {
		if !v.CanSet() {
			v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
		}
		switch {
		case v.Kind() == reflect.Bool:
			v.SetBool(u&1 == 1)
		case v.CanUint():
			v.SetUint(u)
		default:
			s := 64 - bits
			v.SetInt(int64(u<<s) >> s)
		}
	}
	if !dim {
		set(vs[0], scalar(name, func(r *Rand) uint64 { return edgy(r, bits) }))
		return
	}
	vals := make([]uint64, len(vs))
	got := false
	if cur.fix != nil {
		if f, ok := cur.fix.Vecs[name]; ok && len(f) == len(vs) {
			copy(vals, f)
			got = true
		} else if m, ok := cur.fix.Sparse[name]; ok {
			for i := range vals {
				vals[i] = cur.fix.open(cur.rng) & (^uint64(0) >> (64 - bits))
			}
			for k, v := range m {
				if i, err := strconv.ParseUint(k, 10, 64); err == nil && i < uint64(len(vs)) {
					vals[i] = v
				}
			}
			got = true
		}
	}
	if !got && fillHook != nil {
		copy(vals, fillHook(cur.rng))
		got = true
	}
	if !got {
		mode := cur.rng.Intn(3)
		for i := range vals {
			switch mode {
			case 0:
				vals[i] = edgy(cur.rng, bits)
			case 1:
				if cur.rng.Chance(8) {
					vals[i] = edgy(cur.rng, bits)
				}
			default:
				vals[i] = cur.rng.U64() & (^uint64(0) >> (64 - bits))
			}
		}
	}
	cur.rec.Vecs[name] = vals
	for i, v := range vs {
		set(v, vals[i])
	}
}

// Assume restricts attention to runs where c holds.
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assert is a proof obligation.
func Assert(label string, c bool) {
	if !c {
		panic(failure{label})
	}
}

// Lemma is an obligation whose statement may be used afterwards.
func Lemma(label string, c bool) { Assert(label, c) }

// AssertEq obliges a and b to be equal, comparing slices by contents.
func AssertEq(label string, a, b interface{}) {
	if d := diff(reflect.ValueOf(a), reflect.ValueOf(b), ""); d != "" {
		panic(failure{label + ": " + d})
	}
}

func diff(a, b reflect.Value, path string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": one is nil"
		}
		return ""
	}
	if a.Type() != b.Type() {
		if a.Kind() != b.Kind() {
			return path + ": different types"
		}
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d, want %d", path, a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			x, y := a.Bytes(), b.Bytes()
			for i := range x {
				if x[i] != y[i] {
					return fmt.Sprintf("%s[%d]: %#x, want %#x", path, i, x[i], y[i])
				}
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": one is nil"
		}
		if !a.IsNil() {
			return diff(a.Elem(), b.Elem(), path)
		}
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": one is nil"
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q, want %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v, want %v", path, a.Bool(), b.Bool())
		}
	default:
		if a.CanUint() {
			if a.Uint() != b.Uint() {
				return fmt.Sprintf("%s: %#x, want %#x", path, a.Uint(), b.Uint())
			}
		} else if a.CanInt() {
			if a.Int() != b.Int() {
				return fmt.Sprintf("%s: %d, want %d", path, a.Int(), b.Int())
			}
		} else {
			return path + ": cannot compare " + a.Kind().String()
		}
	}
	return ""
}

// AssertForall obliges f(i) for every i in [lo,hi).
func AssertForall(label string, lo, hi int, f func(i int) bool) {
	for i := lo; i < hi; i++ {
		if !f(i) {
			panic(failure{fmt.Sprintf("%s (at %d)", label, i)})
		}
	}
}

// Cover marks a point that must be reachable (vacuity guard).
func Cover(label string) { covered[label]++ }

var covered = map[string]int{}

// Concrete tells a harness that it runs on concrete inputs.
func Concrete() bool { return true }

// ---- driver of concrete runs

func runOnce(name string, f func(), fix *Inputs, seed uint64) (fail string, skipped bool) {
	r := &run{rng: &Rand{s: seed}, fix: fix}
	r.rec = Inputs{Harness: name, Scalars: map[string]string{}, Bytes: map[string]string{}, Vecs: map[string][]uint64{}}
	curMu.Lock()
	cur = r
	curMu.Unlock()
	atomic.StoreInt64(&startedAt, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&startedAt, 0)
		for _, d := range r.temp {
			os.RemoveAll(d)
		}
		if e := recover(); e != nil {
			switch x := e.(type) {
			case skip:
				skipped = true
			case failure:
				fail = x.msg
			default:
				fail = fmt.Sprintf("panic: %v", e)
				if os.Getenv("VERIF_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	f()
	return "", false
}

func report(out string, in Inputs) {
	b, _ := json.MarshalIndent(in, "", " ")
	os.WriteFile(out, b, 0o644)
}

type summary struct {
	Runs    int            `json:"runs"`
	Skipped int            `json:"skipped"`
	Covered map[string]int `json:"covered"`
	Failed  int            `json:"failed"`
	Sample  *Inputs        `json:"sample,omitempty"`
}

// Main runs harnesses on given and generated inputs. Environment:
// VERIF_HARNESS (comma separated), VERIF_REPLAY (files, comma separated),
// VERIF_SECS, VERIF_SEED, VERIF_OUT (failing inputs), VERIF_SUM (statistics).
func Main(hs map[string]func()) {
	out, sum := os.Getenv("VERIF_OUT"), os.Getenv("VERIF_SUM")
	if out == "" {
		return
	}
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	debug.SetGCPercent(100)
	debug.SetMaxStack(8 << 30)
	var s summary
	die := func(in Inputs) {
		s.Failed = 1
		report(out, in)
		b, _ := json.Marshal(s)
		os.WriteFile(sum, b, 0o644)
		os.Exit(7)
	}
	hang := 10.0
	if h, err := strconv.ParseFloat(os.Getenv("VERIF_HANG"), 64); err == nil {
		hang = h
	}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			t := atomic.LoadInt64(&startedAt)
			if t == 0 {
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			if time.Since(time.Unix(0, t)).Seconds() > hang {
				why = fmt.Sprintf("does not terminate within %.0f s", hang)
			}
			if ms.HeapAlloc > 3<<30 {
				why = "memory grows without bound (3 GB)"
			}
			if ms.StackInuse > 400<<20 {
				why = "recursion does not end (400 MB of stack)"
			}
			if why != "" {
				curMu.Lock()
				in := cur.rec
				curMu.Unlock()
				in.Failure = why
				die(in)
			}
		}
	}()
	var names []string
	for _, n := range strings.Split(os.Getenv("VERIF_HARNESS"), ",") {
		if hs[n] != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, f := range strings.Split(os.Getenv("VERIF_REPLAY"), ",") {
		if f == "" {
			continue
		}
		b, err := os.ReadFile(filepath.Clean(f))
		if err != nil {
			continue
		}
		var in Inputs
		if json.Unmarshal(b, &in) != nil || hs[in.Harness] == nil {
			continue
		}
		for v := 0; v < 6; v++ {
			in.variant = v
			fail, sk := runOnce(in.Harness, hs[in.Harness], &in, seed+1+uint64(v))
			s.Runs++
			if sk {
				s.Skipped++
			}
			if fail != "" {
				r := cur.rec
				r.Failure = fail
				die(r)
			}
		}
	}
	if len(names) > 0 && secs > 0 {
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		for k := uint64(0); time.Now().Before(end); k++ {
			n := names[int(k)%len(names)]
			fail, sk := runOnce(n, hs[n], nil, (seed*1000003+k)*0x9e3779b9+k)
			s.Runs++
			if sk {
				s.Skipped++
			} else if s.Sample == nil {
				s.Sample = &Inputs{Harness: n, Scalars: cur.rec.Scalars}
			}
			if fail != "" {
				r := cur.rec
				r.Failure = fail
				die(r)
			}
		}
	}
	s.Covered = covered
	b, _ := json.Marshal(s)
	os.WriteFile(sum, b, 0o644)
}

// TempDir is a scratch directory removed after the run (concrete runs only).
func TempDir() string {
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	cur.temp = append(cur.temp, d)
	return d
}

// Scratch is the path of a file with the given name in a scratch directory of
// this run.
func Scratch(name string) string {
	if len(cur.temp) == 0 {
		TempDir()
	}
	return filepath.Join(cur.temp[0], name)
}

// File is the path of a file with an arbitrary name, different from those of
// other files of the run; gen only guides concrete runs (it gives the last
// element of the path).
func File(label string, gen func(r *Rand) string) string {
	name := ""
	if cur.fix != nil {
		if b, err := hex.DecodeString(cur.fix.Bytes[label]); err == nil {
			name = string(b)
		}
	}
	if name == "" || strings.ContainsAny(name, "/\x00") {
		name = gen(cur.rng)
	}
	cur.rec.Bytes[label] = hex.EncodeToString([]byte(name))
	for _, f := range cur.files {
		if f == name {
			panic(skip{})
		}
	}
	cur.files = append(cur.files, name)
	return Scratch(name)
}

// Name is an arbitrary string standing for a name; gen only guides concrete
// runs.
func Name(label string, gen func(r *Rand) string) string {
	if cur.fix != nil {
		if b, err := hex.DecodeString(cur.fix.Bytes[label]); err == nil && len(b) > 0 {
			cur.rec.Bytes[label] = cur.fix.Bytes[label]
			return string(b)
		}
	}
	name := gen(cur.rng)
	cur.rec.Bytes[label] = hex.EncodeToString([]byte(name))
	return name
}

// Same is whether two slices hold the same bytes.
func Same(a, b []byte) bool { return string(a) == string(b) }

// Cut says that the loops of a function (by name) are to be proved by
// invariant from the outset, and not by going through their iterations.
func Cut(fn string) {}

// Opaque says that a function, by its full name, is used by contract: it
// changes nothing, and its result (a text) depends on its arguments only.
func Opaque(fn string) {}

// OpaqueMax is Opaque for a function whose contract, shown elsewhere, says that
// its result holds at most max elements.
func OpaqueMax(fn string, max int) {}

// Invariant states an invariant of the loop it is in, to be proved where the
// loop is cut and then used.
func Invariant(c bool) { Assert("invariant", c) }

var anyState uint64 = 1

// Any is an arbitrary index; for use with InvariantAll. A concrete run takes
// one between lo and hi, and -1 if there is none.
func Any(lo, hi int) int {
	if lo >= hi {
		return -1
	}
	anyState = anyState*6364136223846793005 + 1442695040888963407
	return lo + int((anyState>>33)%uint64(hi-lo))
}

// InvariantAll states an invariant c of the loop it is in that holds for every
// q, made with Any.
func InvariantAll(q int, c bool) { Assert("invariant", c) }

// Use brings in the instances at q of the invariants that hold for all indices.
func Use(q int) {}

// ReplaceClass is what (*regexp.Regexp).ReplaceAllStringFunc does for a pattern
// that is a range of ASCII characters. (Proofs use it for that.)
func ReplaceClass(lo, hi byte, s string, f func(string) string) string {
	var out bytes.Buffer
	for i := 0; i < len(s); i++ {
		if s[i] >= lo && s[i] <= hi {
			out.WriteString(f(s[i : i+1]))
		} else {
			out.WriteByte(s[i])
		}
	}
	return out.String()
}

// ParseUint is what strconv.ParseUint does for the bases 2 to 36 and sizes of 1
// to 63 bits. (Proofs use it for that.)
func ParseUint(s string, base, bits int) (uint64, error) {
	if base < 2 || base > 36 || bits < 1 || bits > 63 {
		panic("verifrt.ParseUint: not covered")
	}
	if s == "" {
		return 0, fmt.Errorf("invalid syntax")
	}
	max := uint64(1)<<uint(bits) - 1
	n := uint64(0)
	for _, c := range []byte(s) {
		d := byte(0)
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case c >= 'a' && c <= 'z':
			d = c - 'a' + 10
		case c >= 'A' && c <= 'Z':
			d = c - 'A' + 10
		default:
			return 0, fmt.Errorf("invalid syntax")
		}
		if d >= byte(base) {
			return 0, fmt.Errorf("invalid syntax")
		}
		if n > max/uint64(base) || n*uint64(base)+uint64(d) > max {
			return max, fmt.Errorf("value out of range")
		}
		n = n*uint64(base) + uint64(d)
	}
	return n, nil
}

// NoOtherFiles asserts that no files but those named with File exist. (In
// proofs, touching any other file is itself a failed obligation.)
func NoOtherFiles(label string) {
	known := map[string]bool{"..stdin": true, "..stdout": true}
	for _, f := range cur.files {
		known[f] = true
	}
	for _, n := range strings.Split(ScratchNames(), " ") {
		if n != "" && !known[n] {
			panic(failure{label + ": " + n})
		}
	}
}

// PutScratch makes a file.
func PutScratch(path string, contents []byte) {
	if err := os.WriteFile(path, contents, 0o600); err != nil {
		panic(err)
	}
}

// GetScratch is what a file holds, if it exists.
func GetScratch(path string) ([]byte, bool) {
	b, err := os.ReadFile(path)
	return b, err == nil
}

// ScratchNames lists the files there are.
func ScratchNames() string {
	if len(cur.temp) == 0 {
		return ""
	}
	es, _ := os.ReadDir(cur.temp[0])
	var ns []string
	for _, e := range es {
		ns = append(ns, e.Name())
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}

// OpenScratch opens a file for reading.
func OpenScratch(path string) *os.File {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	return f
}

// Std runs f with the given standard input and returns its standard output.
func Std(input []byte, f func()) []byte {
	in, out := Scratch("..stdin"), Scratch("..stdout")
	PutScratch(in, input)
	oldIn, oldOut := os.Stdin, os.Stdout
	inF, err1 := os.Open(in)
	outF, err2 := os.Create(out)
	if err1 != nil || err2 != nil {
		panic("harness error: no scratch files")
	}
	os.Stdin, os.Stdout = inF, outF
	defer func() {
		os.Stdin, os.Stdout = oldIn, oldOut
		inF.Close()
		outF.Close()
		os.Remove(in)
		os.Remove(out)
	}()
	f()
	b, _ := os.ReadFile(out)
	return b
}
