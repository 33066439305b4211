package cmd

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// A world of files, and what they held before.
type vs_world struct {
	names []string
	data  [][]byte
}

func (w *vs_world) put(name string, data []byte) string {
	p := verifrt.Scratch(name)
	verifrt.PutScratch(p, data)
	w.names = append(w.names, name)
	w.data = append(w.data, verifrt.Clone(data))
	return p
}

// same asserts that all files but the one given are as before, and that there
// are no others.
func (w *vs_world) same(label, but string) {
	for i, n := range w.names {
		if n == but {
			continue
		}
		now, exists := verifrt.GetScratch(verifrt.Scratch(n))
		verifrt.Assert(label+": files stay", exists)
		verifrt.AssertEq(label+": files stay as they were", now, w.data[i])
	}
	all := ""
	seen := false
	for _, n := range vs_sorted(append(append([]string{}, w.names...), but)) {
		if n == "" || seen && n == but {
			continue
		}
		if n == but {
			seen = true
			if _, exists := verifrt.GetScratch(verifrt.Scratch(n)); !exists {
				continue
			}
		}
		if all != "" {
			all += " "
		}
		all += n
	}
	verifrt.Assert(label+": no other files appear", verifrt.ScratchNames() == all)
}

func vs_sorted(s []string) []string {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

func vs_genDiskFile(r *verifrt.Rand, table bool) (data []byte, kind string) {
	switch r.Intn(8) {
	case 0:
		return vs_toFile(vs_fromFile(vs_genDOS(r), "do"), "do"), "dos"
	case 1:
		return vs_genImage(r, 143360), "junk"
	case 2:
		return vs_genImage(r, r.PickInt(0, 1, 143359, 143361, 116480, 819200)), "size"
	}
	return vs_toFile(vs_genNaked(r, table), "do"), "naked"
}

// reorder replaces an existing file only when told to, or in place.
func VC_C17_Reorder() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	w := &vs_world{}
	img := vs_genImage(r, r.PickInt(143360, 143360, 143360, 143361, 512))
	in := w.put("in.dsk", img)
	out, outName := "", ""
	exists := false
	switch r.Intn(4) {
	case 0, 1:
		outName = "out.po"
		out = w.put(outName, []byte("precious"))
		exists = true
	case 2:
		outName = "out.po"
		out = verifrt.Scratch(outName)
	}
	if r.Chance(3) {
		w.put("other", []byte("other"))
	}
	c := ReorderCmd{Order: "auto", NewOrder: "auto", DiskImage: in, NewDiskImage: out, Overwrite: r.Bool()}
	if r.Chance(4) {
		c.Order, c.NewOrder = "do", "do"
	}
	err := c.Run(vs_globals())
	if exists && !c.Overwrite {
		verifrt.Assert("an existing file is not replaced unless told to", err != nil)
		verifrt.Cover("existing file kept")
	}
	if err != nil {
		w.same("failed reorder", "")
		return
	}
	if out == "" {
		outName = "in.dsk"
	}
	w.same("reorder", outName)
	got, _ := verifrt.GetScratch(verifrt.Scratch(outName))
	verifrt.AssertEq("reordered", got, vs_toFile(vs_fromFile(img, "do"), "po"))
	if exists {
		verifrt.Cover("existing file replaced")
	}
	verifrt.Cover("reordered")
}

// put changes only the image, and that only if it succeeds.
func VC_C17_Put() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	w := &vs_world{}
	disk, kind := vs_genDiskFile(r, r.Bool())
	img := w.put("disk.do", disk)
	data := vs_genImage(r, r.PickInt(0, 1, 255, 256, 257, 1000, r.Intn(60000)))
	src := w.put("source", data)
	f := r.Pick(1, 2, 6, 8, 0x20, 0xfd)
	c := PutCmd{Order: "auto", System: "auto", FiletypeName: r.PickStr("B", "BIN", "nonsense", "B"), Overwrite: r.Bool(), DiskImage: img, TargetFilename: "DF" + vs_hex(f), SourceFilename: src, Address: 0x6000}
	if r.Chance(6) {
		c.TargetFilename = r.PickStr("", "DF00", "DFFF", "DFFE", "A!", "DF01:DF02", "A:B:C", "HELLO")
	}
	if r.Chance(10) {
		c.SourceFilename = verifrt.Scratch("absent")
	}
	if r.Chance(10) {
		c.DiskImage = verifrt.Scratch("absent.do")
	}
	if kind == "dos" && r.Bool() {
		c.System = "dos3"
	}
	err := c.Run(vs_globals())
	if err != nil {
		w.same("failed put", "")
		verifrt.Cover("put failed")
		return
	}
	w.same("put", "disk.do")
	verifrt.Assert("only NakedOS disks are written", kind == "naked")
	if vs_asHex(c.TargetFilename) != f {
		return
	}
	old := vs_fromFile(disk, "do")
	now, _ := verifrt.GetScratch(img)
	verifrt.Assert("same size", len(now) == len(disk))
	raw := vs_fromFile(now, "do")
	had := vs_nakedFile(old, f)
	verifrt.Assert("an existing file is not replaced unless told to", len(had) == 0 || c.Overwrite)
	got := vs_nakedFile(raw, f)
	verifrt.Assert("the file is on the disk", len(got) == (len(data)+255)/256*256 || len(data) == 0)
	verifrt.AssertEq("the file is on the disk", got[:len(data)], data)
	for g := 1; g < 0xfe; g++ {
		if byte(g) != f {
			verifrt.AssertEq("other files stay", vs_nakedFile(raw, byte(g)), vs_nakedFile(old, byte(g)))
		}
	}
	verifrt.Cover("put")
}

func vs_hex(b byte) string {
	return string([]byte{"0123456789ABCDEF"[b/16], "0123456789ABCDEF"[b%16]})
}

func vs_asHex(n string) byte {
	for f := 1; f < 0xfe; f++ {
		if n == "DF"+vs_hex(byte(f)) {
			return byte(f)
		}
	}
	return 0
}

// rm changes only the image, and that only if it succeeds.
func VC_C17_Delete() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	w := &vs_world{}
	disk, kind := vs_genDiskFile(r, r.Bool())
	img := w.put("disk.do", disk)
	w.put("other", []byte("other"))
	f := r.Pick(1, 2, 6, 8, 0x20, 0xfd)
	c := DeleteCmd{Order: "auto", System: "auto", MissingOk: r.Bool(), DiskImage: img, Filename: "DF" + vs_hex(f)}
	if r.Chance(6) {
		c.Filename = r.PickStr("", "DF00", "DFFF", "HELLO", "A:B:C")
		f = 0
	}
	if r.Chance(10) {
		c.DiskImage = verifrt.Scratch("absent.do")
	}
	err := c.Run(vs_globals())
	if err != nil {
		w.same("failed rm", "")
		verifrt.Cover("rm failed")
		return
	}
	w.same("rm", "disk.do")
	verifrt.Assert("only NakedOS disks are written", kind == "naked")
	if f == 0 {
		return
	}
	old := vs_fromFile(disk, "do")
	now, _ := verifrt.GetScratch(img)
	verifrt.Assert("same size", len(now) == len(disk))
	raw := vs_fromFile(now, "do")
	verifrt.Assert("a missing file is an error unless allowed", len(vs_nakedFile(old, f)) > 0 || c.MissingOk)
	verifrt.Assert("the file is gone", len(vs_nakedFile(raw, f)) == 0)
	for g := 1; g < 0xfe; g++ {
		if byte(g) != f {
			verifrt.AssertEq("other files stay", vs_nakedFile(raw, byte(g)), vs_nakedFile(old, byte(g)))
		}
	}
	verifrt.Cover("rm")
}

// ls and dump write no file.
func VC_C17_Read() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	w := &vs_world{}
	disk, kind := vs_genDiskFile(r, r.Bool())
	img := w.put("disk.do", disk)
	verifrt.Std(nil, func() {
		f := verifrt.OpenScratch(img)
		c := LsCmd{Order: "auto", System: "auto", Image: f, ShortNames: r.Bool()}
		if r.Chance(5) {
			c.Directory = "DIR"
		}
		err := c.Run(vs_globals())
		f.Close()
		if kind == "naked" || kind == "dos" {
			verifrt.Assert("listed", err == nil || c.Directory != "")
		}
	})
	w.same("ls", "")
	name := r.PickStr("DF01", "DF02", "DF05", "DF99", "HELLO", "X")
	var err error
	out := verifrt.Std(nil, func() {
		c := DumpCmd{Order: "auto", System: "auto", DiskImage: img, Filename: name}
		err = c.Run(vs_globals())
	})
	w.same("dump", "")
	if err != nil {
		verifrt.Assert("a failed dump prints nothing", len(out) == 0)
		return
	}
	if f := vs_asHex(name); f != 0 && kind == "naked" {
		verifrt.AssertEq("dumped", out, vs_nakedFile(vs_fromFile(disk, "do"), f))
		verifrt.Cover("dumped")
	}
}

// mkhello changes only the image, and that only if it succeeds.
func VX_C17_Mkhello() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	w := &vs_world{}
	table := !r.Chance(4)
	disk, kind := vs_genDiskFile(r, table)
	img := w.put("disk.do", disk)
	address := r.PickInt(0x6000, 0x2000, 0x2001, r.Intn(256)<<8)
	start := r.PickInt(0xffff, address, address+5, address-1, r.Intn(65536)) & 0xffff
	f := r.Pick(2, 5, 6, 0x10, 0xfd)
	c := MkHelloCmd{Order: "auto", DiskImage: img, Filename: "DF" + vs_hex(f), Address: uint16(address), Start: uint16(start)}
	if r.Chance(6) {
		c.Filename = r.PickStr("", "NONE", "DF00", "A:B:C")
		f = 0
	}
	err := c.Run(vs_globals())
	if err != nil {
		w.same("failed mkhello", "")
		verifrt.Cover("mkhello failed")
		return
	}
	w.same("mkhello", "disk.do")
	if start == 0xffff {
		start = address
	}
	verifrt.Assert("only on NakedOS disks with symbols", kind == "naked" && table)
	verifrt.Assert("refused", address%256 == 0 && start >= address && f != 0)
	now, _ := verifrt.GetScratch(img)
	verifrt.Assert("same size", len(now) == len(disk))
	old, raw := vs_fromFile(disk, "do"), vs_fromFile(now, "do")
	want := make([]byte, 256)
	copy(want, []byte{0x20, 0x40, 3, 0x6d, 1, 0xdc, 0x2c, f, 0xdf, 0x2c, 0, byte(address >> 8), 0xd8, 0x4c, byte(start), byte(start >> 8)})
	got := vs_nakedFile(raw, 1)
	verifrt.Assert("one sector", len(got) == 256)
	verifrt.AssertEq("the program", got[:16], want[:16])
	for g := 5; g < 0xfe; g++ {
		verifrt.AssertEq("other files stay", vs_nakedFile(raw, byte(g)), vs_nakedFile(old, byte(g)))
	}
	verifrt.Cover("mkhello")
}

var _ types.DiskOrder
