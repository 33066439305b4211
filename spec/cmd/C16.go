package cmd

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// The Standard Delivery boot loader, up to the address it jumps to.
const vs_loader = "\x01\xa8\xee\x06\x08\xad\x4e\x08\xc9\xc0\xf0\x40\x85\x27\xc8" +
	"\xc0\x10\x90\x09\xf0\x05\x20\x2f\x08\xa8\x2c\xa0\x01\x84\x3d" +
	"\xc8\xa5\x27\xf0\xdf\x8a\x4a\x4a\x4a\x4a\x09\xc0\x48\xa9\x5b" +
	"\x48\x60\xe6\x41\x06\x40\x20\x37\x08\x18\x20\x3c\x08\xe6\x40" +
	"\xa5\x40\x29\x03\x2a\x05\x2b\xa8\xb9\x80\xc0\xa9\x30\x4c\xa8" +
	"\xfc\x4c"

// vs_sdPlace is where on the diskette the loader looks for page k of the
// program: after sector 0 of track 0 come the even sectors, the odd ones, then
// sector 0 of the next track and so on.
func vs_sdPlace(k int) (t, s int) {
	n := k + 1
	t, s = n/16, n%16
	if s < 8 {
		return t, 2 * s
	}
	return t, 2*s - 15
}

// vs_sdImage is the diskette mksd should make, or none if the program cannot
// be delivered.
func vs_sdImage(prog []byte, address, start int) ([]byte, bool) {
	if start == 0xffff {
		start = address
	}
	n := (len(prog) + 255) / 256
	if address%256 != 0 || start < address || start >= address+len(prog) || address+len(prog) > 0xc000 || len(vs_loader)+2+n+1 > 256 {
		return nil, false
	}
	img := make([]byte, 143360)
	copy(img, vs_loader)
	p := len(vs_loader)
	img[p], img[p+1] = byte(start), byte(start>>8)
	p += 2
	for k := 0; k < n; k++ {
		img[p] = byte(address>>8 + k)
		p++
		t, s := vs_sdPlace(k)
		copy(img[(t*16+s)*256:(t*16+s)*256+256], prog[k*256:])
	}
	img[p] = 0xc0
	return img, true
}

func VC_C16_Mksd() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	n := r.PickInt(0, 1, 2, 255, 256, 257, 512, 4096, 4097, 15*256, 16*256, 31*256+1, 0x6000, 0x5fff, 0x6001, 175*256, 176*256, 176*256-1, 176*256+1, 177*256, r.Intn(0xb800), r.Intn(0x2000), r.Intn(0x2000))
	prog := make([]byte, n)
	r.Fill(prog)
	if n > 0 {
		prog[n-1] |= 1
	}
	address := r.PickInt(0x6000, 0x800, 0x900, 0x2000, 0, 0xbf00, 0xc000, 0xff00, r.Intn(256)<<8, r.Intn(65536), 0xc000-(n+255)&^255)
	if address < 0 {
		address = 0
	}
	start := r.PickInt(0xffff, 0xffff, 0xffff, address, address+n-1, address+n, address-1, address+r.Intn(n+1), r.Intn(65536)) & 0xffff
	order := []types.DiskOrder{"auto", "do", "po"}[r.Intn(3)]
	name := r.PickStr("x.dsk", "x.do", "x.po", "x.PO", "x", "x.img", "x.dsk.po", "x.po.Do")
	out := verifrt.Scratch(name)
	bin := verifrt.Scratch("prog.bin")
	verifrt.PutScratch(bin, prog)
	before := r.Bool()
	old := []byte("old contents")
	if before {
		verifrt.PutScratch(out, old)
	}
	f := verifrt.OpenScratch(bin)
	c := SDCmd{Order: order, DiskImage: out, Binary: f, Address: uint16(address), Start: uint16(start)}
	err := c.Run(vs_globals())
	f.Close()
	want, ok := vs_sdImage(prog, address, start)
	verifrt.Assert("made exactly when the program can be delivered", (err == nil) == ok)
	got, exists := verifrt.GetScratch(out)
	if !ok {
		verifrt.Assert("nothing is written when refused", exists == before)
		if before {
			verifrt.AssertEq("nothing is written when refused", got, old)
		}
		verifrt.Cover("refused")
		return
	}
	if order == "auto" {
		order = vs_orderOf(name)
		if order == "" {
			order = "do"
		}
	}
	verifrt.AssertEq("the image", got, vs_toFile(want, order))
	verifrt.Cover("made")
	if n > 170*256 {
		verifrt.Cover("largest programs")
	}
}

// vs_deliver is the same, as one pass over the program's pages.
func vs_deliver(prog []byte, address, start int) []byte {
	whole := (len(prog) + 255) / 256 * 256
	for len(prog)%256 != 0 {
		verifrt.Invariant(len(prog) <= whole)
		prog = append(prog, 0)
	}
	boot := append([]byte(vs_loader), byte(start), byte(start>>8))
	img := make([]byte, 143360)
	track, sector := byte(0), byte(0)
	for i := 0; i < len(prog); i += 256 {
		verifrt.Invariant(0 <= i && i <= len(prog))
		verifrt.Invariant(i%256 == 0)
		verifrt.Invariant(len(boot) == len(vs_loader)+2+i/256)
		t, s := vs_sdPlace(i/256 - 1)
		verifrt.Invariant(int(track) == t && int(sector) == s)
		t, s = vs_sdPlace(i / 256)
		track, sector = byte(t), byte(s)
		boot = append(boot, byte((address+i)>>8))
		p := (int(track)*16 + int(sector)) * 256
		copy(img[p:p+256], prog[i:i+256])
	}
	boot = append(boot, 0xc0)
	for len(boot) < 256 {
		verifrt.Invariant(len(boot) <= 256)
		boot = append(boot, 0)
	}
	verifrt.Assert("one sector", len(boot) == 256)
	copy(img[0:256], boot)
	return img
}

// For every program of every length, every address and start, every file name
// and order.
func VH_C16_Mksd() {
	verifrt.Cut("Run")
	verifrt.Cut("vs_deliver")
	order := []types.DiskOrder{"auto", "do", "po"}[verifrt.Choose("order", 3)]
	out := verifrt.File("out", vs_genFileName)
	if order == "auto" {
		vs_extCase(out, verifrt.Choose("extension", 4))
	}
	n := verifrt.IntGen("n", 0, 1<<30, func(r *verifrt.Rand) int {
		return r.PickInt(0, 1, 255, 256, 257, 4096, 16*256, 0x6000, 0x6001, 175*256, 176*256-1, 176*256, 176*256+1, r.Intn(0xb800), r.Intn(0x2000))
	})
	prog := verifrt.Bytes("program", n)
	given := verifrt.Clone(prog)
	address, start := verifrt.U16Gen("address", func(r *verifrt.Rand) uint16 {
		return uint16(r.PickInt(0x6000, 0x800, 0x2000, 0, 0xbf00, r.Intn(256)<<8, r.Intn(65536)))
	}), verifrt.U16Gen("start", func(r *verifrt.Rand) uint16 {
		return uint16(r.PickInt(0xffff, 0xffff, 0x6000, 0x800, 0x2100, 0xbf01, r.Intn(65536)))
	})
	bin := verifrt.File("bin", func(r *verifrt.Rand) string { return "prog.bin" })
	verifrt.PutScratch(bin, verifrt.Clone(prog))
	old := make([]byte, 12)
	exists := verifrt.Bool("the image exists")
	if exists {
		verifrt.PutScratch(out, old)
	}
	from := int(start)
	if from == 0xffff {
		from = int(address)
	}
	end := int(address) + n
	refuse := address%256 != 0 || from < int(address) || from >= end || end > 0xc000 || len(vs_loader)+2+(n+255)/256+1 > 256
	f := verifrt.OpenScratch(bin)
	c := SDCmd{Order: order, DiskImage: out, Binary: f, Address: address, Start: start}
	if refuse {
		err := c.Run(&types.Globals{})
		verifrt.Assert("refused", err != nil)
		got, is := verifrt.GetScratch(out)
		verifrt.Assert("nothing is written when refused", is == exists)
		if exists {
			verifrt.AssertEq("nothing is written when refused", got, old)
		}
		verifrt.Cover("refused")
	} else {
		img := vs_deliver(given, int(address), from)
		err := c.Run(&types.Globals{})
		verifrt.Assert("made", err == nil)
		got, is := verifrt.GetScratch(out)
		verifrt.Assert("written", is)
		if order == "auto" {
			order = vs_orderOf(out)
			if order == "" {
				order = "do"
			}
		}
		verifrt.AssertEq("the image", got, vs_toFile(img, order))
		verifrt.Cover("made")
	}
	verifrt.NoOtherFiles("no other files appear")
}
