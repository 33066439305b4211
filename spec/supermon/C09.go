package supermon

import "github.com/zellyn/diskii/verifrt"

// Deleting file f frees exactly its sectors.
func VH_C09_Delete() {
	var m [560]byte
	verifrt.FillGen("map", &m, func(r *verifrt.Rand) []uint64 {
		v := make([]uint64, 560)
		for i, b := range vs_genMap(r) {
			v[i] = uint64(b)
		}
		return v
	})
	f := verifrt.ByteGen("file", func(r *verifrt.Rand) byte { return r.Pick(1, 3, 5, 0x10, 0xfc, 0xfd, byte(1+r.Intn(0xfd))) })
	old := m
	SectorMap(m[:]).Delete(f)
	for p := 0; p < 560; p++ {
		if old[p] == f {
			verifrt.Assert("the file's sectors become free", m[p] == 0xff)
		} else {
			verifrt.Assert("every other sector keeps its owner", m[p] == old[p])
		}
	}
	verifrt.Cover("deleted")
}

// Deleting through the operator, by number or by symbol: the file is gone from
// the disk's own map, its symbol is gone if it was named by it, every other
// file keeps its contents; an unknown name changes nothing.
func VX_C09_Operator() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genImg(r)
	var st []vs_sym
	if r.Bool() {
		vs_makeTable(r, img)
		st = vs_genSymbols(r, r.PickInt(0, 3, 10, 40, 200))
		vs_putSymbols(img, st)
	}
	orig := verifrt.Clone(img)
	op, ok := vs_open(img)
	if !ok {
		verifrt.Assume(false)
	}
	f := r.Pick(1, 2, 5, 0x10, 0x7f, 0x80, 0xfc, 0xfd, byte(1+r.Intn(0xfd)))
	name := vs_numName(r, f)
	known := true
	sym := -1
	if st != nil && r.Chance(3) == false {
		for k := 0; k < 20; k++ {
			i := r.Intn(819)
			if st[i].used {
				name, sym = st[i].name, i
			}
		}
		if sym >= 0 {
			if st[sym].addr > 0xdf00 && st[sym].addr < 0xdffe {
				f = byte(st[sym].addr)
			} else {
				known = false
			}
			if p := vs_number(name); p > 0 {
				f, known = p, true
			}
			name = vs_recase(r, name)
		}
	} else if r.Chance(5) {
		name = vs_genName(r) + "Q"
		known = vs_number(name) > 0
	}
	if f == 3 || f == 4 {
		return // the files that hold the symbol table itself
	}
	if st != nil {
		for i := range st {
			if st[i].used && sym == -1 && vs_fold(st[i].name) == vs_fold(name) {
				return
			}
		}
	}
	existed, err := op.Delete(name)
	verifrt.Assert("fails exactly when there is no such name", (err == nil) == known)
	if !known {
		verifrt.AssertEq("unknown name: nothing changes", img, orig)
		verifrt.Cover("unknown")
		return
	}
	verifrt.Cover("deleted")
	was := vs_fileBytes(vs_owner(orig), orig, f)
	verifrt.Assert("tells whether it existed", existed == (len(was) > 0))
	verifrt.Assert("the file owns nothing", vs_count(vs_owner(img), f) == 0)
	verifrt.AssertEq("map in memory is the one on the disk", []byte(op.SM), verifrt.Clone(vs_owner(img)))
	for g := 1; g <= 0xff; g++ {
		if byte(g) == f || g == 0xff || st != nil && (g == 3 || g == 4) {
			continue
		}
		a, b := vs_fileBytes(vs_owner(orig), orig, byte(g)), vs_fileBytes(vs_owner(img), img, byte(g))
		if g == 0xfe {
			verifrt.Assert("reserved sectors stay reserved", len(a) == len(b))
			continue
		}
		verifrt.AssertEq("other files keep their contents", b, a)
	}
	verifrt.AssertEq("system sectors unchanged", img[:vs_mapAt], orig[:vs_mapAt])
	if st != nil {
		if sym >= 0 {
			vs_remove(st, sym)
		}
		now := vs_symbols(img)
		verifrt.Assert("the disk still has its symbol table", now != nil)
		verifrt.Assert("chains stay whole: "+vs_chainsOK(now), vs_chainsOK(now) == "")
		for i := range st {
			verifrt.Assert("the file's own symbol is gone and every other stays", now[i].used == st[i].used && now[i].addr == st[i].addr*vs_b2i(st[i].used) && now[i].name == st[i].name)
		}
	}
}
