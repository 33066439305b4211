package prodos

import (
	"github.com/zellyn/diskii/verifrt"
)

// vs_bitmap draws a bitmap of n parts (4096 blocks each) with any contents,
// starting at block start.
func vs_bitmap() VolumeBitMap {
	parts := [16]bitmapPart{}
	verifrt.Fill("bitmap", &parts)
	n := verifrt.Int("parts", 1, 16)
	return VolumeBitMap(parts[:n])
}

// Marking a block changes that block's state and no other's.
func VH_C20_Mark() {
	vbm := vs_bitmap()
	b := verifrt.U16("block")
	c := verifrt.U16("other")
	verifrt.Assume(int(b) < 4096*len(vbm))
	verifrt.Assume(int(c) < 4096*len(vbm))
	before := vbm.IsFree(c)
	n := len(vbm)
	verifrt.Lemma("position", int(b)/8%512 < 512)
	free := verifrt.Bool("free")
	if free {
		vbm.MarkUnused(b)
	} else {
		vbm.MarkUsed(b)
	}
	verifrt.Assert("the block is now as marked", vbm.IsFree(b) == free)
	if b != c {
		verifrt.Cover("two blocks")
		verifrt.Assert("every other block is as it was", vbm.IsFree(c) == before)
	}
	verifrt.Assert("size", len(vbm) == n)
}

// The state of block b is bit 7-b%8 of byte b/8 of the bitmap (1 = free).
func VH_C20_Layout() {
	vbm := vs_bitmap()
	b := verifrt.U16("block")
	verifrt.Assume(int(b) < 4096*len(vbm))
	at := int(b) / 8
	bit := (int(vbm[at/512].data[at%512]) >> (7 - b%8)) & 1
	verifrt.Assert("free exactly when its bit is set", vbm.IsFree(b) == (bit == 1))
	verifrt.Cover("layout")
}

// Writing a bitmap stores its parts in their blocks and changes nothing else.
func VH_C20_Write() {
	parts := [8]bitmapPart{}
	verifrt.Fill("bitmap", &parts)
	start := verifrt.U16Gen("start", func(r *verifrt.Rand) uint16 { return uint16(r.Intn(300)) })
	n := verifrt.Int("parts", 0, 8)
	for i := range parts {
		parts[i].SetBlock(start + uint16(i))
	}
	verifrt.Assume(int(start)+8 <= 65535)
	blocks := verifrt.IntGen("blocks", 0, 65536, func(r *verifrt.Rand) int { return r.Intn(320) })
	img := verifrt.Bytes("img", 512*blocks)
	orig := verifrt.Clone(img)
	vbm := VolumeBitMap(parts[:n])
	err := vbm.Write(img)
	verifrt.Assert("fails exactly when a part lies outside the device", (err != nil) == (n > 0 && int(start)+n > blocks))
	if err == nil {
		verifrt.Cover("written")
		want := verifrt.Clone(orig)
		for i := 0; i < n; i++ {
			at := 512 * (int(start) + i)
			copy(want[at:at+512], parts[i].data[:])
		}
		verifrt.AssertEq("device holds the bitmap and is otherwise unchanged", img, want)
	}
}

// An index block: setting entry k makes it read back as set and leaves every
// other entry alone; the low byte is in the first half, the high in the second.
func VH_C20_Index() {
	var ib IndexBlock
	verifrt.Fill("index", &ib)
	k := verifrt.Byte("entry")
	o := verifrt.Byte("other")
	val := verifrt.U16("block")
	verifrt.Assert("entry value", int(ib.Get(k)) == int(ib[k])+256*int(ib[256+int(k)]))
	before := ib.Get(o)
	ib.Set(k, val)
	verifrt.Assert("the entry reads back as set", ib.Get(k) == val)
	if k != o {
		verifrt.Cover("other entry")
		verifrt.Assert("every other entry is as it was", ib.Get(o) == before)
	}
	verifrt.Assert("bytes", ib[k] == byte(val&0xff) && ib[256+int(k)] == byte(val>>8))
}
