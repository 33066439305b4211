package disk

import (
	"errors"

	"github.com/zellyn/diskii/verifrt"
)

func vs_track(name string) byte {
	return verifrt.ByteGen(name, func(r *verifrt.Rand) byte {
		if r.Chance(4) {
			return r.Byte()
		}
		return byte(r.Intn(36))
	})
}

func vs_sector(name string) byte {
	return verifrt.ByteGen(name, func(r *verifrt.Rand) byte {
		if r.Chance(4) {
			return r.Byte()
		}
		return byte(r.Intn(17))
	})
}

// Reading a sector: exactly the 256 bytes at track*4096+sector*256, as a
// private copy, or an error when the image does not hold them.
func VH_C03_ReadSector() {
	n := vs_len("n")
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	t := vs_track("track")
	s := vs_sector("sector")
	off := int(t)*4096 + int(s)*256
	got, err := ReadSector(img, t, s)
	verifrt.Assert("fails exactly when the sector is not inside the image", (err != nil) == (off+256 > n))
	if err == nil {
		verifrt.Cover("sector read")
		verifrt.AssertEq("sector contents", got, orig[off:off+256])
		for i := range got {
			got[i] ^= 0xff
		}
	}
	verifrt.AssertEq("image unchanged, result is a copy", img, orig)
}

// Writing a sector: replaces exactly those 256 bytes, or fails and changes
// nothing.
func VH_C03_WriteSector() {
	n := vs_len("n")
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	m := verifrt.IntGen("m", 0, 1<<40, func(r *verifrt.Rand) int {
		if r.Chance(4) {
			return r.Intn(600)
		}
		return 256
	})
	data := verifrt.Bytes("data", m)
	dorig := verifrt.Clone(data)
	t := vs_track("track")
	s := vs_sector("sector")
	off := int(t)*4096 + int(s)*256
	err := WriteSector(img, t, s, data)
	verifrt.Assert("fails exactly when data is not one sector or the sector is not inside the image", (err != nil) == (m != 256 || off+256 > n))
	want := verifrt.Clone(orig)
	if err == nil {
		verifrt.Cover("sector written")
		copy(want[off:off+256], dorig)
	} else {
		verifrt.Cover("write refused")
	}
	verifrt.AssertEq("image holds the data there and is otherwise unchanged", img, want)
	verifrt.AssertEq("data unchanged", data, dorig)
}

// vs_unit stands for any structure stored in sectors or blocks.
type vs_unit struct {
	t, s  byte
	index uint16
	size  int
	fail  bool
	sets  int
	data  [512]byte
}

var vs_errUnit = errors.New("refused")

func (u *vs_unit) FromSector(data []byte) error {
	u.size = len(data)
	copy(u.data[:256], data)
	if u.fail {
		return vs_errUnit
	}
	return nil
}
func (u *vs_unit) SetTrack(t byte)  { u.t = t; u.sets++ }
func (u *vs_unit) SetSector(s byte) { u.s = s; u.sets++ }
func (u *vs_unit) GetTrack() byte   { return u.t }
func (u *vs_unit) GetSector() byte  { return u.s }
func (u *vs_unit) ToSector() ([]byte, error) {
	if u.fail {
		return nil, vs_errUnit
	}
	r := make([]byte, u.size)
	copy(r, u.data[:])
	return r, nil
}
func (u *vs_unit) FromBlock(b Block) error {
	u.data = b
	if u.fail {
		return vs_errUnit
	}
	return nil
}
func (u *vs_unit) SetBlock(i uint16) { u.index = i; u.sets++ }
func (u *vs_unit) GetBlock() uint16  { return u.index }
func (u *vs_unit) ToBlock() (Block, error) {
	if u.fail {
		return Block{}, vs_errUnit
	}
	return u.data, nil
}

func VH_C03_UnmarshalLogicalSector() {
	n := vs_len("n")
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	t := vs_track("track")
	s := vs_sector("sector")
	u := &vs_unit{fail: verifrt.Bool("fail")}
	off := int(t)*4096 + int(s)*256
	err := UnmarshalLogicalSector(img, u, t, s)
	verifrt.Assert("fails exactly when the sector is missing or the structure refuses it", (err != nil) == (off+256 > n || u.fail))
	if off+256 <= n {
		verifrt.Assert("structure is given one sector", u.size == 256)
		verifrt.AssertEq("structure is given the sector contents", u.data[:256], orig[off:off+256])
	} else {
		verifrt.Assert("structure untouched", u.size == 0)
	}
	if err == nil {
		verifrt.Cover("decoded")
		verifrt.Assert("structure remembers where it came from", u.t == t && u.s == s)
	} else {
		verifrt.Assert("no position recorded on failure", u.sets == 0)
	}
	verifrt.AssertEq("image unchanged", img, orig)
}

func VH_C03_MarshalLogicalSector() {
	n := vs_len("n")
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	u := &vs_unit{}
	verifrt.Fill("data", &u.data)
	u.t = vs_track("track")
	u.s = vs_sector("sector")
	u.fail = verifrt.Bool("fail")
	u.size = verifrt.IntGen("size", 0, 400, func(r *verifrt.Rand) int {
		if r.Chance(4) {
			return r.Intn(400)
		}
		return 256
	})
	off := int(u.t)*4096 + int(u.s)*256
	err := MarshalLogicalSector(img, u)
	verifrt.Assert("fails exactly when the structure, its size or its position is bad", (err != nil) == (u.fail || u.size != 256 || off+256 > n))
	want := verifrt.Clone(orig)
	if err == nil {
		verifrt.Cover("stored")
		copy(want[off:off+256], u.data[:256])
	}
	verifrt.AssertEq("image holds the structure there and is otherwise unchanged", img, want)
}

func vs_block(name string) uint16 {
	return verifrt.U16Gen(name, func(r *verifrt.Rand) uint16 {
		if r.Chance(4) {
			return uint16(r.U64())
		}
		return uint16(r.Intn(285))
	})
}

func VH_C03_UnmarshalBlock() {
	n := vs_len("n")
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	b := vs_block("block")
	u := &vs_unit{fail: verifrt.Bool("fail")}
	off := int(b) * 512
	err := UnmarshalBlock(img, u, b)
	verifrt.Assert("fails exactly when the block is missing or the structure refuses it", (err != nil) == (off+512 > n || u.fail))
	if off+512 <= n {
		verifrt.AssertEq("structure is given the block contents", u.data[:], orig[off:off+512])
	}
	if err == nil {
		verifrt.Cover("decoded")
		verifrt.Assert("structure remembers its block", u.index == b)
	} else {
		verifrt.Assert("no position recorded on failure", u.sets == 0)
	}
	verifrt.AssertEq("image unchanged", img, orig)
}

func VH_C03_MarshalBlock() {
	n := vs_len("n")
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	u := &vs_unit{}
	verifrt.Fill("data", &u.data)
	u.index = vs_block("block")
	u.fail = verifrt.Bool("fail")
	off := int(u.index) * 512
	err := MarshalBlock(img, u)
	verifrt.Assert("fails exactly when the structure or its position is bad", (err != nil) == (u.fail || off+512 > n))
	want := verifrt.Clone(orig)
	if err == nil {
		verifrt.Cover("stored")
		copy(want[off:off+512], u.data[:])
	}
	verifrt.AssertEq("image holds the structure there and is otherwise unchanged", img, want)
}
