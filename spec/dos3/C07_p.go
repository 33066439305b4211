package dos3

import (
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/verifrt"
)

// vs_list is a track/sector list: the link at 1, 122 pairs from 12 on.
func vs_list(l []byte, t, s byte) TrackSectorList {
	tsl := TrackSectorList{Unused1: l[0], NextTrack: l[1], NextSector: l[2], SectorOffset: uint16(l[5]) | uint16(l[6])<<8}
	tsl.Track, tsl.Sector = t, s
	copy(tsl.Unused2[:], l[3:5])
	copy(tsl.Unused3[:], l[7:12])
	for k := 0; k < 122; k++ {
		tsl.TrackSectors[k] = disk.TrackSector{Track: l[12+2*k], Sector: l[13+2*k]}
	}
	return tsl
}

// vs_lists follows the chain of lists.
func vs_lists(img []byte, t, s byte) ([]TrackSectorList, bool) {
	lists := []TrackSectorList{}
	been := map[disk.TrackSector]bool{}
	for t != 0 || s != 0 {
		p := (int(t)*16 + int(s)) * 256
		at := disk.TrackSector{Track: t, Sector: s}
		if been[at] || p+256 > len(img) {
			return nil, false
		}
		been[at] = true
		lists = append(lists, vs_list(img[p:p+256], t, s))
		t, s = img[p+1], img[p+2]
	}
	return lists, true
}

// vs_data puts the listed sectors together. The last list ends with its last
// pair that is not zero.
func vs_data(img []byte, lists []TrackSectorList) ([]byte, bool) {
	data := make([]byte, 0, 256*122*len(lists))
	for i, l := range lists {
		end := 121
		if i == len(lists)-1 {
			end = vs_last(l)
		}
		for j := 0; j <= end; j++ {
			at := l.TrackSectors[j]
			if at.Track == 0 && at.Sector == 0 {
				for k := 0; k < 256; k++ {
					data = append(data, 0)
				}
				continue
			}
			p := (int(at.Track)*16 + int(at.Sector)) * 256
			if p+256 > len(img) {
				return nil, false
			}
			data = append(data, img[p:p+256]...)
		}
	}
	return data, true
}

// vs_last is the index of the last pair that is not zero, or -1.
func vs_last(l TrackSectorList) int {
	end := -1
	for j := 0; j < 122; j++ {
		if l.TrackSectors[j].Track != 0 || l.TrackSectors[j].Sector != 0 {
			end = j
		}
	}
	return end
}

// The raw contents of a file, for any starting list.
func VH_C07_Contents() {
	verifrt.Cut("Contents")
	verifrt.Cut("vs_lists")
	verifrt.Cut("vs_data")
	verifrt.Cut("vs_last")
	img := verifrt.Bytes("image", verifrt.Int("n", 0, 1<<20))
	orig := verifrt.Clone(img)
	fd := FileDesc{TrackSectorListTrack: verifrt.Byte("track"), TrackSectorListSector: verifrt.Byte("sector")}
	got, err := fd.Contents(img)
	verifrt.AssertEq("reading changes nothing", img, orig)
	var want []byte
	lists, ok := vs_lists(img, fd.TrackSectorListTrack, fd.TrackSectorListSector)
	if ok {
		want, ok = vs_data(img, lists)
	}
	verifrt.Assert("read exactly when it can be", (err == nil) == ok)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(got) == 0)
		verifrt.Cover("refused")
		return
	}
	verifrt.AssertEq("contents", got, want)
	if len(got) > 0 {
		got[verifrt.Int("i", 0, len(got)-1)] ^= 0xff
		verifrt.AssertEq("the contents are no part of the image", img, orig)
		verifrt.Cover("read")
	}
}

// vs_find is the first file of a name.
func vs_find(fds []FileDesc, name string) (FileDesc, bool) {
	for _, fd := range fds {
		if fd.FilenameString() == name {
			return fd, true
		}
	}
	return FileDesc{}, false
}

// vs_trim cuts the zeroes at the end.
func vs_trim(data []byte) []byte {
	for len(data) > 0 && data[len(data)-1] == 0 {
		data = data[:len(data)-1]
	}
	return data
}

// A file read by name. (The catalogue: C06. The contents: VH_C07_Contents.)
func VH_C07_GetFile() {
	verifrt.Opaque("dos3.ReadCatalog")
	verifrt.Opaque("(*dos3.FileDesc).Contents")
	verifrt.Cut("fileForFilename")
	verifrt.Cut("vs_find")
	verifrt.Cut("GetFile")
	verifrt.Cut("vs_trim")
	img := verifrt.Bytes("image", verifrt.Int("n", 0, 1<<20))
	name := verifrt.Str("name", verifrt.Int("len", 0, 4096))
	orig := verifrt.Clone(img)
	op, err := OperatorFactory{}.Operator(img, 0)
	verifrt.Assert("operator", err == nil)
	fi, err := op.GetFile(name)
	verifrt.AssertEq("reading changes nothing", img, orig)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(fi.Data) == 0)
	}
	fds, _, cerr := ReadCatalog(img, 0)
	if cerr != nil {
		verifrt.Assert("no catalogue is an error", err != nil)
		verifrt.Cover("unreadable")
		return
	}
	fd, found := vs_find(fds, name)
	if !found {
		verifrt.Assert("no such file is an error", err != nil)
		verifrt.Cover("not found")
		return
	}
	data, derr := fd.Contents(img)
	if derr != nil {
		verifrt.Assert("contents that cannot be read are an error", err != nil)
		verifrt.Cover("damaged")
		return
	}
	start := uint16(0)
	switch fd.Filetype & 0x7f {
	case 0:
		data = vs_trim(data)
	case 1, 2, 4:
		if fd.Filetype&0x7f == 2 {
			start = 0x801
		}
		if fd.Filetype&0x7f == 4 {
			if len(data) < 2 {
				verifrt.Assert("no start address is an error", err != nil)
				return
			}
			start = uint16(data[0]) | uint16(data[1])<<8
			data = data[2:]
		}
		if len(data) < 2 || int(data[0])+256*int(data[1]) > len(data)-2 {
			verifrt.Assert("too short is an error", err != nil)
			verifrt.Cover("too short")
			return
		}
		data = data[2 : 2+int(data[0])+256*int(data[1])]
	default:
		verifrt.Assert("other types are errors", err != nil)
		verifrt.Cover("other types")
		return
	}
	verifrt.Assert("read", err == nil)
	verifrt.AssertEq("contents", fi.Data, data)
	verifrt.Assert("start address", fi.StartAddress == start)
	d := fi.Descriptor
	verifrt.Assert("length", d.Length == len(data))
	verifrt.AssertEq("name", d.Name, name)
	verifrt.Assert("description", d.Type == vs_type(byte(fd.Filetype)) && d.Locked == (fd.Filetype >= 0x80) && d.Sectors == int(fd.SectorCount))
	verifrt.Cover("read")
}
