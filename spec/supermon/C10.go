package supermon

import "github.com/zellyn/diskii/verifrt"

// vs_hexName is the numeric name of a file.
func vs_hexName(f int) string {
	h := "0123456789ABCDEF"
	return "DF" + string([]byte{h[f/16], h[f%16]})
}

// The catalogue lists every file that owns sectors, once, in order of number,
// with its name (the first symbol with its address, else DFxx), sector count,
// length and type; reading a listed file gives exactly its sectors in order.
func VC_C10_Catalog() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genImg(r)
	var st []vs_sym
	if r.Bool() {
		vs_makeTable(r, img)
		st = vs_genSymbols(r, r.PickInt(0, 3, 10, 40, 400))
		vs_putSymbols(img, st)
	}
	orig := verifrt.Clone(img)
	op, ok := vs_open(img)
	verifrt.Assert("a disk with a proper map opens", ok)
	if st != nil {
		verifrt.Assert("its symbol table is read: "+vs_sameSym(st, op.ST), vs_sameSym(st, op.ST) == "")
	} else {
		verifrt.Assume(op.ST == nil)
	}
	descs, err := op.Catalog("")
	verifrt.Assert("catalogue succeeds", err == nil)
	k := 0
	for f := 1; f <= 0xfd; f++ {
		want := vs_fileBytes(vs_owner(orig), orig, byte(f))
		if len(want) == 0 {
			continue
		}
		verifrt.Assert("every file is listed", k < len(descs))
		d := descs[k]
		k++
		name, full := vs_hexName(f), vs_hexName(f)
		for i := range st {
			if st[i].used && st[i].addr == 0xdf00+f {
				name, full = st[i].name, vs_hexName(f)+":"+st[i].name
				break
			}
		}
		verifrt.Assert("name", d.Name == name && d.Fullname == full)
		verifrt.Assert("size", d.Sectors*256 == len(want) && d.Length == len(want) && d.Blocks == 0)
		verifrt.Assert("type", d.Type == 6 && !d.Locked)
		for _, n := range []string{vs_hexName(f), d.Name, vs_numName(r, byte(f)), vs_recase(r, name)} {
			if p := vs_number(n); p != 0 && int(p) != f {
				continue
			}
			fi, err := op.GetFile(n)
			verifrt.Assert("listed files can be read", err == nil)
			verifrt.AssertEq("contents are the file's sectors in order", fi.Data, want)
			verifrt.Assert("description", fi.Descriptor.Length == len(want) && fi.Descriptor.Name == name && fi.Descriptor.Type == 6 && fi.Descriptor.Sectors*256 == len(want))
			verifrt.Assert("address", fi.StartAddress == 0x1800*uint16(vs_b2i(f == 1)))
		}
	}
	verifrt.Assert("nothing else is listed", k == len(descs))
	for j := 0; j < 8; j++ {
		f := 1 + r.Intn(0xfd)
		if vs_count(vs_owner(orig), byte(f)) == 0 {
			_, err := op.GetFile(vs_hexName(f))
			verifrt.Assert("files without sectors cannot be read", err != nil)
			verifrt.Cover("missing file")
		}
	}
	verifrt.AssertEq("reading changes nothing", img, orig)
	verifrt.Cover("listed")
}

// The sector map's questions are answered exactly.
func VC_C10_Map() {
	img := verifrt.BytesGen("img", 143360, vs_genImg)
	m, err := LoadSectorMap(img)
	verifrt.Assert("loads", err == nil && len(m) == 560)
	owner := verifrt.Clone(vs_owner(img))
	verifrt.AssertEq("the map on the disk", []byte(m), owner)
	verifrt.Assert("free sectors", m.FreeSectors() == vs_count(owner, 0xff))
	first := 0
	by := m.SectorsByFile()
	for f := 1; f <= 0xfd; f++ {
		n := vs_count(owner, byte(f))
		if n == 0 && first == 0 {
			first = f
		}
		verifrt.Assert("sectors by file", len(by[byte(f)]) == n)
		ss := m.SectorsForFile(byte(f))
		verifrt.Assert("sectors of the file", len(ss) == n)
		k := 0
		for p := 0; p < 560; p++ {
			if owner[p] == byte(f) {
				verifrt.Assert("in order", int(ss[k].Track)*16+int(ss[k].Sector) == p && ss[k].Sector < 16)
				verifrt.Assert("in order", by[byte(f)][k] == ss[k])
				k++
			}
		}
	}
	verifrt.Assert("first free file", int(m.FirstFreeFile()) == first)
	verifrt.Cover("map")
}

// Only a map with track 0, sectors 0 to B reserved and no zero entry is taken
// for a NakedOS disk.
func VH_C10_Verify() {
	var m [560]byte
	verifrt.FillGen("map", &m, func(r *verifrt.Rand) []uint64 {
		v := make([]uint64, 560)
		for i, b := range vs_genMap(r) {
			v[i] = uint64(b)
		}
		if r.Bool() {
			v[r.PickInt(r.Intn(560), r.Intn(13))] = uint64(r.Pick(0, 0xff, 0xfe, 1))
		}
		return v
	})
	ok := true
	for p := 0; p < 560; p++ {
		if p < 12 && m[p] != 0xfe || m[p] == 0 {
			ok = false
		}
	}
	verifrt.Assert("recognised exactly when the map is proper", (SectorMap(m[:]).Verify() == nil) == ok)
	if ok {
		verifrt.Cover("proper")
	} else {
		verifrt.Cover("improper")
	}
}

func VH_C10_FileForSector() {
	var m [560]byte
	verifrt.Fill("map", &m)
	t, s := verifrt.Byte("track"), verifrt.Byte("sector")
	got := SectorMap(m[:]).FileForSector(t, s)
	if t < 35 && s < 16 {
		verifrt.Assert("owner of the sector", got == m[int(t)*16+int(s)])
		verifrt.Cover("on the disk")
	} else {
		verifrt.Assert("no owner", got == 0)
	}
}

func VH_C10_FreeSectors() {
	var m [560]byte
	verifrt.Fill("map", &m)
	n := 0
	for p := 0; p < 560; p++ {
		if m[p] == 0xff {
			n++
		}
	}
	verifrt.Assert("free sectors counted", SectorMap(m[:]).FreeSectors() == n)
	verifrt.Cover("counted")
}
