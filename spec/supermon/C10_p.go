package supermon

import (
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// vs_sectors lists the sectors of a file, in disk order.
func vs_sectors(m []byte, f byte) []disk.TrackSector {
	var l []disk.TrackSector
	for t := byte(0); t < 35; t++ {
		verifrt.Invariant(t <= 35)
		verifrt.Invariant(len(l) <= 16*int(t))
		for s := byte(0); s < 16; s++ {
			verifrt.Invariant(s <= 16)
			verifrt.Invariant(len(l) <= 16*int(t)+int(s))
			if m[16*int(t)+int(s)] == f {
				l = append(l, disk.TrackSector{Track: t, Sector: s})
			}
		}
	}
	return l
}

func VH_C10_SectorsForFile() {
	verifrt.Cut("SectorsForFile")
	verifrt.Cut("vs_sectors")
	owners := verifrt.BytesGen("map", 560, vs_genMap)
	m, orig := SectorMap(verifrt.Clone(owners)), verifrt.Clone(owners)
	f := verifrt.Byte("file")
	want := vs_sectors(orig, f)
	got := m.SectorsForFile(f)
	verifrt.AssertEq("the file's sectors in disk order", got, want)
	verifrt.Assert("no more than there are on the disk", len(got) <= 560)
	verifrt.AssertEq("map unchanged", []byte(m), orig)
	verifrt.Cover("listed")
}

// vs_onDisk lists the sectors of a file, every one of them on the disk.
func vs_onDisk(m []byte, f byte) []disk.TrackSector {
	q := verifrt.Any(0, 0)
	var l []disk.TrackSector
	for t := byte(0); t < 35; t++ {
		verifrt.InvariantAll(q, q < 0 || q >= len(l) || vs_legal(l[q]))
		for s := byte(0); s < 16; s++ {
			verifrt.InvariantAll(q, q < 0 || q >= len(l) || vs_legal(l[q]))
			if m[16*int(t)+int(s)] == f {
				l = append(l, disk.TrackSector{Track: t, Sector: s})
			}
		}
	}
	return l
}

func vs_legal(ts disk.TrackSector) bool { return ts.Track < 35 && ts.Sector < 16 }

func vs_read(img []byte, l []disk.TrackSector) []byte {
	var b []byte
	for i, ts := range l {
		verifrt.Use(i)
		p := 256 * (16*int(ts.Track) + int(ts.Sector))
		b = append(b, img[p:p+256]...)
	}
	return b
}

func VH_C10_Read() {
	verifrt.Cut("SectorsForFile")
	verifrt.Cut("ReadFile")
	verifrt.Cut("vs_onDisk")
	verifrt.Cut("vs_read")
	img := verifrt.BytesGen("img", 143360, vs_genImg)
	owners := verifrt.BytesGen("map", 560, vs_genMap)
	m, orig, disk := SectorMap(verifrt.Clone(owners)), verifrt.Clone(owners), verifrt.Clone(img)
	f := verifrt.Byte("file")
	want := vs_read(disk, vs_onDisk(orig, f))
	got, err := m.ReadFile(img, f)
	verifrt.Assert("can be read", err == nil)
	verifrt.AssertEq("the file's sectors in order", got, want)
	verifrt.AssertEq("nothing changes", img, disk)
	verifrt.Cover("read")
}

func VH_C10_Load() {
	n := verifrt.IntGen("n", 0, 1<<30, func(r *verifrt.Rand) int { return r.PickInt(0, 0xbff, 0xc00, 0xb00, 143360, r.Intn(5000)) })
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	m, err := LoadSectorMap(img)
	verifrt.Assert("loads from images that hold a map", (err == nil) == (n >= 0xc00))
	if n >= 0xc00 {
		verifrt.AssertEq("the map on the disk", []byte(m), orig[0x9d0:0xc00])
		verifrt.Cover("loaded")
	}
	verifrt.AssertEq("image unchanged", img, orig)
}

func VH_C10_FirstFree() {
	verifrt.OpaqueMax("(supermon.SectorMap).SectorsForFile", 560) // by VH_C10_SectorsForFile
	m := SectorMap(verifrt.BytesGen("map", 560, vs_genMap))
	want := byte(0)
	for f := byte(0xfd); f >= 1; f-- {
		if len(m.SectorsForFile(f)) == 0 {
			want = f
		}
	}
	verifrt.Assert("first file without sectors", m.FirstFreeFile() == want)
	verifrt.Cover("found")
}

func VH_C10_ByFile() {
	verifrt.OpaqueMax("(supermon.SectorMap).SectorsForFile", 560) // by VH_C10_SectorsForFile
	m := SectorMap(verifrt.BytesGen("map", 560, vs_genMap))
	by := m.SectorsByFile()
	for f := byte(1); f <= 0xfd; f++ {
		want := m.SectorsForFile(f)
		verifrt.Assert("sectors by file", len(by[f]) == len(want))
		if len(want) > 0 {
			verifrt.AssertEq("sectors by file", by[f], want)
		}
	}
	verifrt.Cover("grouped")
}

// vs_at lists the symbols with an address.
func vs_at(st SymbolTable, a uint16) []Symbol {
	l := []Symbol{}
	for _, s := range st {
		if s.Address == a {
			l = append(l, s)
		}
	}
	return l
}

func VH_C10_Names() {
	verifrt.Cut("SymbolsForAddress")
	verifrt.Cut("vs_at")
	var st SymbolTable
	n := verifrt.Int("n", 0, 819)
	verifrt.FillSlice("table", &st, n, vs_genTable(n))
	f := verifrt.Byte("file")
	l := vs_at(st, 0xdf00+uint16(f))
	name, full := vs_hexName(int(f)), vs_hexName(int(f))
	if len(l) > 0 {
		name, full = l[0].Name, full+":"+l[0].Name
	}
	verifrt.AssertEq("name", NameForFile(f, st), name)
	verifrt.AssertEq("full name", FullnameForFile(f, st), full)
}

func VH_C10_Catalog() {
	verifrt.OpaqueMax("(supermon.SectorMap).SectorsForFile", 560) // by VH_C10_SectorsForFile
	verifrt.Opaque("supermon.NameForFile")
	verifrt.Opaque("supermon.FullnameForFile")
	m := SectorMap(verifrt.BytesGen("map", 560, vs_genMap))
	var st SymbolTable
	verifrt.FillSlice("table", &st, 819, vs_genTable(819))
	op := Operator{SM: m, ST: st}
	got, err := op.Catalog("")
	var want []types.Descriptor
	by := m.SectorsByFile() // by VH_C10_ByFile
	for f := byte(1); f <= 0xfd; f++ {
		n := len(by[f])
		if n == 0 {
			continue
		}
		want = append(want, types.Descriptor{Name: NameForFile(f, st), Fullname: FullnameForFile(f, st), Sectors: n, Length: 256 * n, Type: 6})
	}
	verifrt.Assert("catalogue succeeds", err == nil)
	verifrt.AssertEq("the files that own sectors, in order", got, want)
	verifrt.Cover("listed")
}

func VH_C10_GetFile() {
	verifrt.Opaque("(supermon.SymbolTable).FileForName")
	verifrt.Opaque("(supermon.SectorMap).ReadFile")
	verifrt.Opaque("supermon.NameForFile")
	img := verifrt.BytesGen("img", 143360, vs_genImg)
	m := SectorMap(verifrt.BytesGen("map", 560, vs_genMap))
	var st SymbolTable
	verifrt.FillSlice("table", &st, 819, vs_genTable(819))
	name := verifrt.Name("name", func(r *verifrt.Rand) string { return vs_numName(r, r.Pick(1, 2, 3, 5, 0xfd)) })
	op := Operator{data: img, SM: m, ST: st}
	got, err := op.GetFile(name)
	f, err1 := st.FileForName(name)
	if err1 != nil {
		verifrt.Assert("unknown names cannot be read", err != nil)
		return
	}
	b, err2 := m.ReadFile(img, f)
	if err2 != nil || len(b) == 0 {
		verifrt.Assert("files without sectors cannot be read", err != nil)
		return
	}
	verifrt.Assert("can be read", err == nil)
	verifrt.AssertEq("contents", got.Data, b)
	verifrt.Assert("description", got.Descriptor.Length == len(b) && got.Descriptor.Sectors == len(b)/256 && got.Descriptor.Type == 6 && !got.Descriptor.Locked)
	verifrt.AssertEq("name", got.Descriptor.Name, NameForFile(f, st))
	want := uint16(0)
	if f == 1 {
		want = 0x1800
	}
	verifrt.Assert("address", got.StartAddress == want)
	verifrt.Cover("read")
}

// vs_hex is the number that hexadecimal digits stand for, if it has 16 bits.
func vs_hex(s []byte) (n uint64, ok bool) {
	for _, c := range s {
		verifrt.Invariant(n <= 0xffff)
		d := byte(0)
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case c >= 'a' && c <= 'f':
			d = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			d = c - 'A' + 10
		default:
			return 0, false
		}
		n = n*16 + uint64(d)
		if n > 0xffff {
			return 0, false
		}
	}
	return n, len(s) > 0
}

func VH_C10_Numeric() {
	verifrt.Cut("ParseUint")
	verifrt.Cut("vs_hex")
	n := verifrt.IntGen("n", 0, 1<<20, func(r *verifrt.Rand) int { return r.Intn(8) })
	b := verifrt.BytesGen("name", n, func(r *verifrt.Rand) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = "0123456789abcdefABCDEFgG_x"[r.PickInt(r.Intn(26), 0, 13, 15)]
		}
		return b
	})
	want := byte(0)
	v, ok := vs_hex(verifrt.Clone(b))
	if ok && (v > 0xdf00 && v < 0xdffe || v > 0 && v < 0xfe) {
		want = byte(v)
	}
	verifrt.Assert("number of a numeric name", parseAddressFilename(string(b)) == want)
	verifrt.Cover("parsed")
}

// vs_named is the address of the first symbol of that name, 0 if none.
func vs_named(st SymbolTable, name string) uint16 {
	for _, s := range st {
		if strings.EqualFold(s.Name, name) {
			return s.Address
		}
	}
	return 0
}

func vs_anyName(r *verifrt.Rand) string {
	switch r.Intn(3) {
	case 0:
		return vs_numName(r, r.Pick(1, 2, 3, 5, 0xfd))
	case 1:
		return vs_genName(r)
	}
	return ""
}

func VH_C10_FileForName() {
	verifrt.Opaque("supermon.parseAddressFilename") // by VH_C10_Numeric
	verifrt.Cut("FileForName")
	verifrt.Cut("vs_named")
	var st SymbolTable
	n := verifrt.Int("n", 0, 819)
	verifrt.FillSlice("table", &st, n, vs_genTable(n))
	name := verifrt.Name("name", vs_anyName)
	a := vs_named(st, name)
	f, err := st.FileForName(name)
	if v := parseAddressFilename(name); v != 0 {
		verifrt.Assert("numeric names are numbers", err == nil && f == v)
		verifrt.Cover("number")
	} else if a > 0xdf00 && a < 0xdffe {
		verifrt.Assert("the symbol's file", err == nil && f == byte(a-0xdf00))
		verifrt.Cover("symbol")
	} else {
		verifrt.Assert("no such file", err != nil)
		verifrt.Cover("neither")
	}
}

func VH_C10_Open() {
	verifrt.Cut("SectorsForFile")
	verifrt.Opaque("(supermon.SectorMap).ReadSymbolTable")
	n := verifrt.IntGen("n", 0, 1<<30, func(r *verifrt.Rand) int { return r.PickInt(0, 0xbff, 0xc00, 143360, 143360) })
	img := verifrt.BytesGen("img", n, func(r *verifrt.Rand) []byte { return append(vs_genImg(r), make([]byte, n)...)[:n] })
	orig := verifrt.Clone(img)
	proper := n >= 0xc00
	if proper {
		for p := 0; p < 560; p++ {
			if p < 12 && orig[0x9d0+p] != 0xfe || orig[0x9d0+p] == 0 {
				proper = false
			}
		}
	}
	verifrt.Assert("recognised", OperatorFactory{}.SeemsToMatch(img, 0) == proper)
	op, err := OperatorFactory{}.Operator(img, 0)
	verifrt.Assert("opens", (err == nil) == proper)
	verifrt.AssertEq("nothing changes", img, orig)
	if !proper {
		return
	}
	o := op.(Operator)
	verifrt.AssertEq("its map", []byte(o.SM), orig[0x9d0:0xc00])
	verifrt.AssertEq("its bytes", o.GetBytes(), orig)
	m, _ := LoadSectorMap(img)
	st, err := m.ReadSymbolTable(img)
	if err == nil {
		verifrt.AssertEq("its symbols", o.ST, st)
	} else {
		verifrt.Assert("no symbols", len(o.ST) == 0)
	}
	verifrt.Cover("opened")
}
