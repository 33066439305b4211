package supermon

import "github.com/zellyn/diskii/verifrt"

// Writing file f: refused (and nothing changes) when empty, when there is not
// enough room, or when the file exists and may not be replaced. Otherwise the
// file owns exactly the sectors it needs, taken from free and formerly own
// ones; they hold the contents padded with zeros; every sector of another file
// and every other free sector keeps its owner and bytes; and the map on the disk
// is the map in memory.
func VX_C08_WriteFile() {
	img := verifrt.BytesGen("img", 143360, vs_genImg)
	sm, err := LoadSectorMap(img)
	verifrt.Assert("the sector map loads", err == nil)
	for p := 0; p < 12; p++ {
		verifrt.Assume(sm[p] == 0xfe)
	}
	verifrt.AssertEq("loaded map is the one on the disk", verifrt.Clone(sm), verifrt.Clone(vs_owner(img)))
	f := verifrt.ByteGen("file", func(r *verifrt.Rand) byte {
		return r.Pick(1, 2, 3, 5, 0x10, 0x7f, 0x80, 0xfc, 0xfd, byte(1+r.Intn(0xfd)), byte(1+r.Intn(0xfd)), r.Pick(0, 0xfe, 0xff))
	})
	if g := verifrt.Byte("deleted before"); g >= 1 && g <= 0xfd {
		sm.Delete(g) // in memory only
	}
	old := verifrt.Clone(sm)
	orig := verifrt.Clone(img)
	room := vs_count(old, 0xff) + vs_count(old, f)
	n := verifrt.IntGen("n", 0, 150000, func(r *verifrt.Rand) int {
		if r.Chance(2) {
			return 256*(room+r.Intn(3)-1) + r.PickInt(0, 0, 1, -1, 255, -255) + 256
		}
		return vs_genLen(r)
	})
	contents := verifrt.Bytes("contents", n)
	given := verifrt.Clone(contents)
	overwrite := verifrt.Bool("overwrite")
	existing := vs_count(old, f)
	need := (n + 255) / 256
	existed, err := sm.WriteFile(img, f, contents, overwrite)
	verifrt.Assert("tells whether the file existed", existed == (existing > 0))
	verifrt.AssertEq("contents untouched", contents, given)
	refuse := f == 0 || f >= 0xfe || need == 0 || need > room || existing > 0 && !overwrite
	verifrt.Assert("refused exactly when empty, too big, existing or misnumbered", (err != nil) == refuse)
	if refuse {
		verifrt.Cover("refused")
		verifrt.AssertEq("refused: map unchanged", []byte(sm), old)
		verifrt.AssertEq("refused: image unchanged", img, orig)
		return
	}
	verifrt.Cover("written")
	vs_checkWritten(img, orig, sm, old, f, given)
	back, err := sm.ReadFile(img, f)
	verifrt.Assert("can be read", err == nil)
	padded := make([]byte, 256*need)
	copy(padded, given)
	verifrt.AssertEq("reads back padded with zeros", back, padded)
}

// vs_checkWritten: file f now holds data, and nothing else changed.
func vs_checkWritten(img, orig, sm, old []byte, f byte, data []byte) {
	verifrt.AssertEq("the map on the disk is the map in memory", verifrt.Clone(vs_owner(img)), verifrt.Clone(sm))
	verifrt.AssertEq("before the map", img[:vs_mapAt], orig[:vs_mapAt])
	k := 0
	for p := 0; p < 560; p++ {
		was, now := old[p], sm[p]
		at := p * 256
		if was != 0xff && was != f {
			verifrt.Assert("other files keep their sectors", now == was)
		} else {
			verifrt.Assert("sectors go to the file or stay free", now == f || now == 0xff)
		}
		if now == f {
			var want [256]byte
			if k*256 < len(data) {
				copy(want[:], data[k*256:])
			}
			verifrt.AssertEq("the file's sectors hold the contents in order", img[at:at+256], want[:])
			k++
		} else if p < 9 || p > 11 {
			verifrt.AssertEq("other sectors keep their bytes", img[at:at+256], orig[at:at+256])
		}
	}
	verifrt.Assert("the file owns the sectors it needs", k == (len(data)+255)/256)
}

// Histories of puts and deletes on a disk, through the operator: after each
// step every file holds what was last put there.
func VX_C08_History() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genImg(r)
	op, ok := vs_open(img)
	if !ok {
		verifrt.Assume(false)
	}
	model := map[byte][]byte{}
	for f := 1; f <= 0xfd; f++ {
		if b := vs_fileBytes(vs_owner(img), img, byte(f)); len(b) > 0 {
			model[byte(f)] = b
		}
	}
	verifrt.Assume(op.ST == nil)
	for step := 0; step < 6; step++ {
		f := r.Pick(1, 2, 3, 5, 0x10, 0x7f, 0xfc, 0xfd, byte(1+r.Intn(0xfd)))
		name := vs_numName(r, f)
		before := verifrt.Clone(img)
		if r.Chance(4) {
			existed, err := op.Delete(name)
			verifrt.Assert("delete succeeds", err == nil && existed == (len(model[f]) > 0))
			delete(model, f)
		} else {
			data := make([]byte, vs_genLen(r))
			if r.Bool() {
				data = make([]byte, 256*vs_count(vs_owner(img), 0xff)+r.PickInt(0, 1, 256, -255)+len(model[f])*r.Intn(2)+256)
			}
			r.Fill(data)
			over := r.Bool()
			room := vs_count(vs_owner(img), 0xff)*256 + len(model[f])
			refuse := len(data) == 0 || len(data) > room || len(model[f]) > 0 && !over
			existed, err := op.PutFile(vs_binary(name, data), over)
			verifrt.Assert("put refused exactly when empty, too big or existing", (err != nil) == refuse)
			if err != nil {
				verifrt.AssertEq("refused put changes nothing", img, before)
			} else {
				verifrt.Assert("put tells whether the file existed", existed == (len(model[f]) > 0))
				b := make([]byte, (len(data)+255)/256*256)
				copy(b, data)
				model[f] = b
			}
		}
		for g := 1; g <= 0xfd; g++ {
			got := vs_fileBytes(vs_owner(img), img, byte(g))
			want := model[byte(g)]
			verifrt.Assert("every file holds what was put", len(got) == len(want))
			if len(want) > 0 {
				verifrt.AssertEq("every file holds what was put", got, want)
			}
		}
		verifrt.AssertEq("system sectors unchanged", img[:vs_mapAt], before[:vs_mapAt])
		op2, ok := vs_open(img)
		verifrt.Assert("disk opens again", ok)
		verifrt.AssertEq("with the same map", []byte(op2.SM), []byte(op.SM))
		if r.Bool() {
			fi, err := op2.GetFile(name)
			verifrt.Assert("reading back", (err == nil) == (len(model[f]) > 0))
			if err == nil {
				verifrt.AssertEq("reading back", fi.Data, model[f])
				verifrt.Assert("length", fi.Descriptor.Length == len(fi.Data) && fi.Descriptor.Sectors*256 == len(fi.Data))
			}
		}
		if op2.ST != nil {
			return
		}
		verifrt.Cover("step")
	}
}
