package supermon

import (
	"strings"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// The sector map of a NakedOS disk is 560 bytes, one for each sector in disk
// order, at bytes 0x9D0 to 0xBFF of the image (track 0, sectors 9, A and B).
const vs_mapAt, vs_mapEnd = 0x9d0, 0xc00

// vs_owner is the sector map held in an image.
func vs_owner(img []byte) []byte { return img[vs_mapAt:vs_mapEnd] }

// vs_count counts the sectors of the map that belong to f.
func vs_count(owner []byte, f byte) int {
	n := 0
	for p := 0; p < 560; p++ {
		if owner[p] == f {
			n++
		}
	}
	return n
}

// vs_fileBytes is what the sectors of file f hold, in disk order.
func vs_fileBytes(owner, img []byte, f byte) []byte {
	var b []byte
	for p := 0; p < 560; p++ {
		if owner[p] == f {
			b = append(b, img[p*256:p*256+256]...)
		}
	}
	return b
}

// vs_genMap makes a plausible sector map.
func vs_genMap(r *verifrt.Rand) []byte {
	m := make([]byte, 560)
	for i := range m {
		m[i] = 0xff
	}
	pool := []byte{1, 2, 3, 4, 5, 0x10, 0x7f, 0x80, 0xfc, 0xfd, r.Byte(), r.Byte()}
	for i := range pool {
		if pool[i] == 0 {
			pool[i] = 9
		}
	}
	density := r.PickInt(0, 20, 50, 90, 99, 100)
	if r.Chance(3) { // runs of sectors
		for k := r.Intn(12); k > 0; k-- {
			f := pool[r.Intn(len(pool))]
			a := r.Intn(560)
			for i := a; i < a+r.Intn(80) && i < 560; i++ {
				m[i] = f
			}
		}
	} else {
		for i := range m {
			if r.Intn(100) < density {
				m[i] = pool[r.Intn(len(pool))]
			}
		}
	}
	if r.Chance(3) { // a few free ones, so that files just fit or just do not
		for k := r.Intn(4); k > 0; k-- {
			m[r.PickInt(r.Intn(560), 559, 558, 12, 15, 16)] = 0xff
		}
	}
	for i := 0; i < 12; i++ {
		m[i] = 0xfe
	}
	return m
}

// vs_genImg makes an image whose sector map is plausible.
func vs_genImg(r *verifrt.Rand) []byte {
	img := make([]byte, 143360)
	switch r.Intn(3) {
	case 0:
		for p := 0; p < 560; p++ {
			for k := 0; k < 256; k += 1 + r.Intn(100) {
				img[p*256+k] = byte(p) ^ byte(k)
			}
		}
	case 1:
		r.Fill(img)
	default:
		for k := 0; k < 560; k++ {
			img[k*256+r.Intn(256)] = r.Byte()
		}
	}
	copy(img[vs_mapAt:], vs_genMap(r))
	return img
}

// vs_genContents makes file contents of interesting length.
func vs_genLen(r *verifrt.Rand) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(4)
	case 1:
		return 256*r.Intn(12) + r.Intn(3) - 1 + 1
	case 2:
		return 256 * r.Intn(5)
	case 3:
		return 256 * r.Intn(561)
	case 4:
		return 1 + r.Intn(143360)
	}
	return 1 + r.Intn(3000)
}

// ---- symbols

type vs_sym struct {
	name string
	addr int
	link int // index, or -1
	used bool
}

func vs_hash(addr int) int { return (addr&255 ^ addr>>8&255) & 127 }

// vs_decodeName is the documented packing: 5 bits for a letter (1-26), 6 for a
// digit (27-31 with the next bit telling 0-4 from 5-9), low bits first.
func vs_decodeName(f4 []byte, extra byte) string {
	v := uint64(extra) << 40
	for i := 0; i < 5; i++ {
		v |= uint64(f4[i]) << (8 * uint(i))
	}
	s := []byte{}
	for v%32 != 0 {
		c := v % 32
		v /= 32
		if c <= 26 {
			s = append(s, byte('A'+c-1))
			continue
		}
		d := c - 27
		if v%2 == 1 {
			d += 5
		}
		v /= 2
		s = append(s, byte('0'+d))
	}
	return string(s)
}

func vs_encodeName(name string) (b [6]byte) {
	v := uint64(0)
	for i := len(name) - 1; i >= 0; i-- {
		c := name[i]
		if c >= '0' && c <= '9' {
			d := uint64(c - '0')
			v = v*2 + d/5
			v = v*32 + 27 + d%5
		} else {
			v = v*32 + uint64(c-'A'+1)
		}
	}
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// vs_symbols decodes the symbol table held by files 3 and 4; nil if there is none.
func vs_symbols(img []byte) []vs_sym {
	f3, f4 := vs_fileBytes(vs_owner(img), img, 3), vs_fileBytes(vs_owner(img), img, 4)
	if len(f3) != 4096 || len(f4) != 4096 {
		return nil
	}
	st := make([]vs_sym, 819)
	for i := range st {
		e := f3[5*i : 5*i+5]
		st[i].link = -1
		st[i].addr = int(e[0]) + 256*int(e[1])
		if st[i].addr == 0 {
			continue
		}
		st[i].used = true
		if l := int(e[2]) + 256*int(e[3]); l != 0 {
			st[i].link = (l - 0xd000) / 5
		}
		st[i].name = vs_decodeName(f4[5*i:5*i+5], e[4])
	}
	return st
}

// vs_putSymbols stores a symbol table into files 3 and 4 of an image that has them.
func vs_putSymbols(img []byte, st []vs_sym) {
	var f3, f4 [4096]byte
	for i, s := range st {
		if !s.used {
			continue
		}
		n := vs_encodeName(s.name)
		f3[5*i], f3[5*i+1] = byte(s.addr), byte(s.addr>>8)
		if s.link >= 0 {
			a := 0xd000 + 5*s.link
			f3[5*i+2], f3[5*i+3] = byte(a), byte(a>>8)
		}
		f3[5*i+4] = n[5]
		copy(f4[5*i:], n[:5])
	}
	i3, i4 := 0, 0
	for p := 0; p < 560; p++ {
		switch img[vs_mapAt+p] {
		case 3:
			copy(img[p*256:p*256+256], f3[i3*256:])
			i3++
		case 4:
			copy(img[p*256:p*256+256], f4[i4*256:])
			i4++
		}
	}
}

// vs_genName makes a storable symbol name that is not a number.
func vs_genName(r *verifrt.Rand) string {
	for {
		n := 3 + r.Intn(7)
		b := make([]byte, n)
		bits := 0
		for i := range b {
			if r.Chance(4) {
				b[i] = byte('0' + r.Intn(10))
				bits += 6
			} else {
				b[i] = byte('A' + r.Intn(26))
				bits += 5
			}
		}
		if r.Chance(2) {
			b[0] = "GHXYZQ"[r.Intn(6)]
			bits = 99
			if n <= 8 {
				bits = 0
			}
		}
		if bits <= 48 {
			return string(b)
		}
	}
}

// vs_genSymbols makes a well-formed symbol table: distinct names, and for each
// hash value one chain holding every symbol with that hash.
func vs_genSymbols(r *verifrt.Rand, n int) []vs_sym {
	st := make([]vs_sym, 819)
	for i := range st {
		st[i].link = -1
	}
	seen := map[string]bool{}
	last := map[int]int{}
	first := map[int]int{}
	for k := 0; k < n; k++ {
		i := r.Intn(819)
		if r.Chance(2) {
			i = r.PickInt(k%819, 818, 0, 817)
		}
		name := vs_genName(r)
		if st[i].used || seen[name] {
			continue
		}
		addr := 1 + r.Intn(65535)
		switch r.Intn(3) {
		case 0:
			addr = 0xdf00 + r.Intn(256)
		case 1:
			addr = 0xdf00 + r.PickInt(1, 2, 3, 4, 5, 0x10, 0x7f, 0x80, 0xfc, 0xfd, 0xfe)
		}
		seen[name] = true
		st[i] = vs_sym{name: name, addr: addr, link: -1, used: true}
		h := vs_hash(addr)
		if _, ok := first[h]; !ok {
			first[h], last[h] = i, i
		} else if r.Bool() {
			st[last[h]].link = i
			last[h] = i
		} else {
			st[i].link = first[h]
			first[h] = i
		}
	}
	return st
}

// vs_chainsOK: links join symbols of equal hash, no symbol is linked from two
// others, and all symbols of a hash are in one chain.
func vs_chainsOK(st []vs_sym) string {
	from := map[int]int{}
	total := map[int]int{}
	heads := map[int]int{}
	for i, s := range st {
		if !s.used {
			continue
		}
		total[vs_hash(s.addr)]++
		if s.link == -1 {
			continue
		}
		if s.link < 0 || s.link >= 819 || !st[s.link].used {
			return "symbol " + s.name + " links to no symbol"
		}
		if vs_hash(st[s.link].addr) != vs_hash(s.addr) {
			return "symbol " + s.name + " links to a symbol with another hash"
		}
		from[s.link]++
		if from[s.link] > 1 {
			return "symbol " + st[s.link].name + " is linked twice"
		}
		_ = i
	}
	for i, s := range st {
		if s.used && from[i] == 0 {
			heads[vs_hash(s.addr)]++
			n := 0
			for j := i; j != -1 && n < 900; j = st[j].link {
				n++
			}
			if n != total[vs_hash(s.addr)] {
				return "chain from " + s.name + " does not hold every symbol with its hash"
			}
		}
	}
	for h := range total {
		if heads[h] != 1 {
			return "no single chain for a hash"
		}
	}
	return ""
}

func vs_sameSym(a []vs_sym, b SymbolTable) string {
	if len(a) != len(b) {
		return "length of the symbol table"
	}
	for i := range a {
		if !a[i].used {
			if b[i].Address != 0 {
				return "free entry has an address"
			}
			continue
		}
		if int(b[i].Address) != a[i].addr || !strings.EqualFold(b[i].Name, a[i].name) || b[i].Link != a[i].link {
			return "entry of " + a[i].name
		}
	}
	return ""
}

func vs_open(img []byte) (Operator, bool) {
	op, err := OperatorFactory{}.Operator(img, 0)
	if err != nil {
		return Operator{}, false
	}
	o, ok := op.(Operator)
	return o, ok
}

func vs_binary(name string, data []byte) types.FileInfo {
	return types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: data}
}

func vs_genTable(n int) func(r *verifrt.Rand) interface{} {
	return func(r *verifrt.Rand) interface{} {
		st := vs_genSymbols(r, r.PickInt(0, 3, 20, 300))
		t := make(SymbolTable, n)
		for i := range t {
			t[i] = Symbol{Link: -1}
			if st[i].used {
				t[i] = Symbol{Name: st[i].name, Address: uint16(st[i].addr), Link: st[i].link}
			}
		}
		return t
	}
}
