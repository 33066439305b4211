package prodos

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/verifrt"
)

func vs_u16(b []byte, o int) int { return int(b[o]) + 256*int(b[o+1]) }

func vs_checkDT(d DateTime, b []byte) {
	verifrt.Assert("date", d.YMD[0] == b[0] && d.YMD[1] == b[1])
	verifrt.Assert("time", d.HM[0] == b[2] && d.HM[1] == b[3])
}

// vs_checkFD: a file descriptor is the 39 bytes b (Beneath Apple ProDOS 4-8).
func vs_checkFD(fd FileDescriptor, b []byte) {
	verifrt.Assert("storage type and name length", fd.TypeAndNameLength == b[0])
	verifrt.AssertEq("file name", fd.FileName[:], b[1:0x10])
	verifrt.Assert("file type", fd.FileType == b[0x10])
	verifrt.Assert("key pointer", int(fd.KeyPointer) == vs_u16(b, 0x11))
	verifrt.Assert("blocks used", int(fd.BlocksUsed) == vs_u16(b, 0x13))
	verifrt.AssertEq("end of file", fd.EOF[:], b[0x15:0x18])
	vs_checkDT(fd.Creation, b[0x18:0x1c])
	verifrt.Assert("versions and access", fd.Version == b[0x1c] && fd.MinVersion == b[0x1d] && byte(fd.Access) == b[0x1e])
	verifrt.Assert("auxiliary type", int(fd.AuxType) == vs_u16(b, 0x1f))
	vs_checkDT(fd.LastMod, b[0x21:0x25])
	verifrt.Assert("header pointer", int(fd.HeaderPointer) == vs_u16(b, 0x25))
	verifrt.Assert("type is the high nibble", fd.Type() == b[0]/16)
}

func vs_checkVolHeader(h VolumeDirectoryHeader, b []byte) {
	verifrt.Assert("storage type and name length", h.TypeAndNameLength == b[0])
	verifrt.AssertEq("volume name", h.VolumeName[:], b[1:0x10])
	vs_checkDT(h.Creation, b[0x18:0x1c])
	verifrt.Assert("versions and access", h.Version == b[0x1c] && h.MinVersion == b[0x1d] && byte(h.Access) == b[0x1e])
	verifrt.Assert("entry size", h.EntryLength == b[0x1f] && h.EntriesPerBlock == b[0x20])
	verifrt.Assert("file count", int(h.FileCount) == vs_u16(b, 0x21))
	verifrt.Assert("bit map pointer", int(h.BitMapPointer) == vs_u16(b, 0x23))
	verifrt.Assert("total blocks", int(h.TotalBlocks) == vs_u16(b, 0x25))
}

func vs_checkSubHeader(h SubdirectoryHeader, b []byte) {
	verifrt.Assert("storage type and name length", h.TypeAndNameLength == b[0])
	verifrt.AssertEq("subdirectory name", h.SubdirectoryName[:], b[1:0x10])
	verifrt.Assert("magic", h.SeventyFive == b[0x10])
	vs_checkDT(h.Creation, b[0x18:0x1c])
	verifrt.Assert("versions and access", h.Version == b[0x1c] && h.MinVersion == b[0x1d] && byte(h.Access) == b[0x1e])
	verifrt.Assert("entry size", h.EntryLength == b[0x1f] && h.EntriesPerBlock == b[0x20])
	verifrt.Assert("file count", int(h.FileCount) == vs_u16(b, 0x21))
	verifrt.Assert("parent", int(h.ParentPointer) == vs_u16(b, 0x23) && h.ParentEntry == b[0x25] && h.ParentEntryLength == b[0x26])
}

// Decoding a volume directory key block: every field comes from its documented place, and
// encoding it again restores all 512 bytes that carry information.
func VH_C05_VolumeDirectoryKeyBlockDecode() {
	var b disk.Block
	verifrt.Fill("block", &b)
	orig := b
	var d VolumeDirectoryKeyBlock
	err := d.FromBlock(b)
	verifrt.Assert("any block is accepted", err == nil)
	verifrt.Assert("links", int(d.Prev) == vs_u16(orig[:], 0) && int(d.Next) == vs_u16(orig[:], 2))
	vs_checkVolHeader(d.Header, orig[4:0x2b])
	for i := 0; i < 12; i++ {
		vs_checkFD(d.Descriptors[i], orig[0x2b+0x27*i:0x2b+0x27*(i+1)])
	}
	verifrt.Assert("last byte", d.Extra == orig[511])
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the block", out, orig)
	verifrt.Cover("decoded")
}

func VH_C05_VolumeDirectoryKeyBlockEncode() {
	var d VolumeDirectoryKeyBlock
	verifrt.Fill("value", &d)
	was := d
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("encoding changes nothing", d, was)
	var w VolumeDirectoryKeyBlock
	w.SetBlock(d.GetBlock())
	err = w.FromBlock(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the value", w, was)
	verifrt.Cover("encoded")
}

// Decoding a volume directory block: every field comes from its documented place, and
// encoding it again restores all 512 bytes that carry information.
func VH_C05_VolumeDirectoryBlockDecode() {
	var b disk.Block
	verifrt.Fill("block", &b)
	orig := b
	var d VolumeDirectoryBlock
	err := d.FromBlock(b)
	verifrt.Assert("any block is accepted", err == nil)
	verifrt.Assert("links", int(d.Prev) == vs_u16(orig[:], 0) && int(d.Next) == vs_u16(orig[:], 2))
	for i := 0; i < 13; i++ {
		vs_checkFD(d.Descriptors[i], orig[0x4+0x27*i:0x4+0x27*(i+1)])
	}
	verifrt.Assert("last byte", d.Extra == orig[511])
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the block", out, orig)
	verifrt.Cover("decoded")
}

func VH_C05_VolumeDirectoryBlockEncode() {
	var d VolumeDirectoryBlock
	verifrt.Fill("value", &d)
	was := d
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("encoding changes nothing", d, was)
	var w VolumeDirectoryBlock
	w.SetBlock(d.GetBlock())
	err = w.FromBlock(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the value", w, was)
	verifrt.Cover("encoded")
}

// Decoding a subdirectory key block: every field comes from its documented place, and
// encoding it again restores all 512 bytes that carry information.
func VH_C05_SubdirectoryKeyBlockDecode() {
	var b disk.Block
	verifrt.Fill("block", &b)
	orig := b
	var d SubdirectoryKeyBlock
	err := d.FromBlock(b)
	verifrt.Assert("any block is accepted", err == nil)
	verifrt.Assert("links", int(d.Prev) == vs_u16(orig[:], 0) && int(d.Next) == vs_u16(orig[:], 2))
	vs_checkSubHeader(d.Header, orig[4:0x2b])
	for i := 0; i < 12; i++ {
		vs_checkFD(d.Descriptors[i], orig[0x2b+0x27*i:0x2b+0x27*(i+1)])
	}
	verifrt.Assert("last byte", d.Extra == orig[511])
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the block", out, orig)
	verifrt.Cover("decoded")
}

func VH_C05_SubdirectoryKeyBlockEncode() {
	var d SubdirectoryKeyBlock
	verifrt.Fill("value", &d)
	was := d
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("encoding changes nothing", d, was)
	var w SubdirectoryKeyBlock
	w.SetBlock(d.GetBlock())
	err = w.FromBlock(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the value", w, was)
	verifrt.Cover("encoded")
}

// Decoding a subdirectory block: every field comes from its documented place, and
// encoding it again restores all 512 bytes that carry information.
func VH_C05_SubdirectoryBlockDecode() {
	var b disk.Block
	verifrt.Fill("block", &b)
	orig := b
	var d SubdirectoryBlock
	err := d.FromBlock(b)
	verifrt.Assert("any block is accepted", err == nil)
	verifrt.Assert("links", int(d.Prev) == vs_u16(orig[:], 0) && int(d.Next) == vs_u16(orig[:], 2))
	for i := 0; i < 13; i++ {
		vs_checkFD(d.Descriptors[i], orig[0x4+0x27*i:0x4+0x27*(i+1)])
	}
	verifrt.Assert("last byte", d.Extra == orig[511])
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the block", out, orig)
	verifrt.Cover("decoded")
}

func VH_C05_SubdirectoryBlockEncode() {
	var d SubdirectoryBlock
	verifrt.Fill("value", &d)
	was := d
	out, err := d.ToBlock()
	verifrt.Assert("it can always be encoded", err == nil)
	verifrt.AssertEq("encoding changes nothing", d, was)
	var w SubdirectoryBlock
	w.SetBlock(d.GetBlock())
	err = w.FromBlock(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the value", w, was)
	verifrt.Cover("encoded")
}

// The catalogue line for a descriptor shows the name, size, length and type
// its bytes hold.
func VH_C05_Descriptor() {
	var b disk.Block
	verifrt.Fill("block", &b)
	var d VolumeDirectoryBlock
	_ = d.FromBlock(b)
	fd := d.Descriptors[0]
	desc := fd.descriptor()
	n := int(b[4] & 15)
	verifrt.Assert("name length", len(desc.Name) == n)
	for i := 0; i < 15; i++ {
		if i < n {
			verifrt.Assert("name", desc.Name[i] == b[5+i])
		}
	}
	verifrt.Assert("blocks", desc.Blocks == vs_u16(b[:], 0x17))
	verifrt.Assert("length", desc.Length == int(b[0x19])+256*int(b[0x1a])+65536*int(b[0x1b]))
	verifrt.Assert("type", int(desc.Type) == int(b[0x14]))
	verifrt.Cover("descriptor")
}

func vs_badDT(d DateTime) bool { return d.HM[0] >= 24 || d.HM[1] >= 60 }
func vs_badFD(fd FileDescriptor) bool {
	return vs_badDT(fd.Creation) || vs_badDT(fd.LastMod)
}

// vs_someBadFD tells whether any descriptor is invalid.
func vs_someBadFD(fds []FileDescriptor) bool {
	bad := false
	for i := range fds {
		if vs_badFD(fds[i]) {
			bad = true
		}
	}
	return bad
}

// vs_directoryBlock draws any block (concrete runs prefer nearly valid ones).
func vs_directoryBlock() disk.Block {
	var b disk.Block
	drawn := verifrt.BytesGen("block", 512, func(r *verifrt.Rand) []byte {
		data := make([]byte, 512)
		r.Fill(data)
		if r.Chance(4) {
			return data
		}
		data[0], data[1], data[511] = 0, 0, 0
		for o := 4; o+39 <= 511; o += 39 {
			data[o+0x1a], data[o+0x1b] = byte(r.Intn(24)), byte(r.Intn(60))
			data[o+0x23], data[o+0x24] = byte(r.Intn(24)), byte(r.Intn(60))
		}
		data[4+0x10] = 0x75
		switch r.Intn(6) {
		case 0:
			data[r.Intn(512)] = r.Byte()
		case 1:
			o := 4 + 39*r.Intn(13)
			data[o+r.PickInt(0x1a, 0x1b, 0x23, 0x24)] = r.Pick(23, 24, 59, 60, 61, 255)
		case 2:
			data[r.PickInt(0, 1, 511, 0x14)] = r.Byte()
		}
		return data
	})
	copy(b[:], drawn)
	return b
}

// Validation reports a problem exactly when a time of day is impossible, the
// last byte is not zero, a key block has a predecessor, or a subdirectory
// header lacks its $75 mark.
func VH_C05_ValidateVolumeKey() {
	b := vs_directoryBlock()
	var d VolumeDirectoryKeyBlock
	_ = d.FromBlock(b)
	bad := d.Prev != 0 || d.Extra != 0 || vs_badDT(d.Header.Creation) || vs_someBadFD(d.Descriptors[:])
	verifrt.Assert("problems reported exactly when there are some", (len(d.Validate()) > 0) == bad)
	verifrt.Cover("validated")
}

func VH_C05_ValidateVolumeBlock() {
	b := vs_directoryBlock()
	var d VolumeDirectoryBlock
	_ = d.FromBlock(b)
	bad := d.Extra != 0 || vs_someBadFD(d.Descriptors[:])
	verifrt.Assert("problems reported exactly when there are some", (len(d.Validate()) > 0) == bad)
	verifrt.Cover("validated")
}

func VH_C05_ValidateSubdirKey() {
	b := vs_directoryBlock()
	var d SubdirectoryKeyBlock
	_ = d.FromBlock(b)
	bad := d.Prev != 0 || d.Extra != 0 || d.Header.SeventyFive != 0x75 || vs_badDT(d.Header.Creation) || vs_someBadFD(d.Descriptors[:])
	verifrt.Assert("problems reported exactly when there are some", (len(d.Validate()) > 0) == bad)
	verifrt.Cover("validated")
}

func VH_C05_ValidateSubdirBlock() {
	b := vs_directoryBlock()
	var d SubdirectoryBlock
	_ = d.FromBlock(b)
	bad := d.Extra != 0 || vs_someBadFD(d.Descriptors[:])
	verifrt.Assert("problems reported exactly when there are some", (len(d.Validate()) > 0) == bad)
	verifrt.Cover("validated")
}
