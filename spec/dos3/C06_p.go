package dos3

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// vs_parse is a catalogue sector: the link at 1, seven entries of 35 bytes from
// 11 on.
func vs_parse(c []byte, t, s byte) CatalogSector {
	cs := CatalogSector{Unused1: c[0], NextTrack: c[1], NextSector: c[2]}
	cs.Track, cs.Sector = t, s
	copy(cs.Unused2[:], c[3:11])
	for k := 0; k < 7; k++ {
		e := c[11+35*k : 11+35*k+35]
		fd := FileDesc{TrackSectorListTrack: e[0], TrackSectorListSector: e[1], Filetype: Filetype(e[2]), SectorCount: uint16(e[33]) | uint16(e[34])<<8}
		copy(fd.Filename[:], e[3:33])
		cs.FileDescs[k] = fd
	}
	return cs
}

// vs_sectors follows the chain of catalogue sectors.
func vs_sectors(img []byte) ([]CatalogSector, bool) {
	if len(img) < 17*16*256+256 {
		return nil, false
	}
	v := img[17*16*256 : 17*16*256+256]
	if !vs_vtocOK(v) {
		return nil, false
	}
	css := []CatalogSector{}
	been := map[disk.TrackSector]bool{}
	t, s := v[1], v[2]
	for t != 0 || s != 0 {
		p := (int(t)*16 + int(s)) * 256
		at := disk.TrackSector{Track: t, Sector: s}
		if been[at] || t >= 35 || s >= v[0x35] || p+256 > len(img) {
			return nil, false
		}
		been[at] = true
		css = append(css, vs_parse(img[p:p+256], t, s))
		t, s = img[p+1], img[p+2]
	}
	return css, true
}

// vs_entries are the entries in use, and those of deleted files.
func vs_entries(css []CatalogSector) (files, deleted []FileDesc) {
	for _, c := range css {
		for _, e := range c.FileDescs {
			if e.TrackSectorListTrack == 0xff {
				deleted = append(deleted, e)
			} else if e.TrackSectorListTrack != 0 {
				files = append(files, e)
			}
		}
	}
	return files, deleted
}

// vs_text is a name: high bits dropped, trailing spaces cut, and without its
// last character if the file is deleted.
func vs_text(fd FileDesc) string {
	b := make([]byte, 30)
	for i := range b {
		b[i] = fd.Filename[i] ^ 0x80
	}
	n := 30
	if fd.TrackSectorListTrack == 0xff {
		n = 29
	}
	for n > 0 && b[n-1] == ' ' {
		n--
	}
	return string(b[:n])
}

// The catalogue read from any image is the one on the disk, or an error.
func VH_C06_Read() {
	verifrt.Cut("readCatalogSectors")
	verifrt.Cut("vs_sectors")
	verifrt.Cut("ReadCatalog")
	verifrt.Cut("vs_entries")
	img := verifrt.Bytes("image", verifrt.Int("n", 0, 1<<20))
	orig := verifrt.Clone(img)
	files, deleted, err := ReadCatalog(img, 0)
	verifrt.AssertEq("reading changes nothing", img, orig)
	css, ok := vs_sectors(img)
	verifrt.Assert("read exactly when it is readable", (err == nil) == ok)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(files) == 0 && len(deleted) == 0)
		verifrt.Cover("unreadable")
		return
	}
	f, d := vs_entries(css)
	verifrt.AssertEq("the files", files, f)
	verifrt.AssertEq("the deleted files", deleted, d)
	verifrt.Cover("readable")
}

// vs_descs is what the user sees of the files. (Their names: VH_C06_Name.)
func vs_descs(fds []FileDesc) []types.Descriptor {
	descs := make([]types.Descriptor, 0, len(fds))
	for _, fd := range fds {
		descs = append(descs, types.Descriptor{Name: fd.FilenameString(), Sectors: int(fd.SectorCount), Length: -1, Locked: fd.Filetype >= 0x80, Type: vs_type(byte(fd.Filetype))})
	}
	return descs
}

// What the user sees of it.
func VH_C06_Catalog() {
	verifrt.Cut("readCatalogSectors")
	verifrt.Cut("vs_sectors")
	verifrt.Cut("ReadCatalog")
	verifrt.Cut("vs_entries")
	verifrt.Cut("Catalog")
	verifrt.Cut("vs_descs")
	img := verifrt.Bytes("image", verifrt.Int("n", 0, 1<<20))
	orig := verifrt.Clone(img)
	op, err := OperatorFactory{}.Operator(img, 0)
	verifrt.Assert("operator", err == nil)
	descs, err := op.Catalog("")
	verifrt.AssertEq("reading changes nothing", img, orig)
	verifrt.AssertEq("the disk's bytes", op.GetBytes(), orig)
	css, ok := vs_sectors(img)
	verifrt.Assert("listed exactly when it is readable", (err == nil) == ok)
	if err != nil {
		verifrt.Cover("unreadable")
		return
	}
	f, _ := vs_entries(css)
	verifrt.AssertEq("the listing", descs, vs_descs(f))
	verifrt.Cover("listed")
}

// Which images are taken for DOS 3.3 disks.
func VH_C06_Match() {
	verifrt.Cut("readCatalogSectors")
	verifrt.Cut("vs_sectors")
	verifrt.Cut("ReadCatalog")
	img := verifrt.Bytes("image", verifrt.Int("n", 0, 1<<20))
	orig := verifrt.Clone(img)
	got := OperatorFactory{}.SeemsToMatch(img, 0)
	verifrt.AssertEq("reading changes nothing", img, orig)
	_, ok := vs_sectors(img)
	verifrt.Assert("taken for DOS 3.3 exactly when the catalogue is readable", got == ok)
	verifrt.Cover("asked")
}

// The name of any entry.
func VH_C06_Name() {
	fd := FileDesc{}
	fd.FromBytes(verifrt.Bytes("entry", 35))
	verifrt.AssertEq("the name", fd.FilenameString(), vs_text(fd))
	verifrt.Cover("named")
}
