package dos3

import (
	"github.com/zellyn/diskii/verifrt"
)

// A file read by name is exactly what its track/sector lists say, or an error.
func VC_C07_GetFile() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genDisk(r)
	orig := verifrt.Clone(img)
	entries, _, ok := vs_catalog(orig)
	op, err := OperatorFactory{}.Operator(img, 0)
	verifrt.Assert("operator", err == nil)
	names := []string{"", "NO SUCH FILE", "A"}
	for i, e := range entries {
		if len(entries) < 30 || r.Chance(10) || i == len(entries)-1 {
			names = append(names, vs_name(e))
		}
	}
	for _, name := range names {
		var want []byte
		var start uint16
		found := false
		var e []byte
		if ok {
			for _, e = range entries {
				if vs_name(e) == name {
					want, start, found = vs_get(orig, e)
					break
				}
			}
		}
		fi, err := op.GetFile(name)
		verifrt.Assert("read exactly when it can be", (err == nil) == found)
		verifrt.AssertEq("reading changes nothing", img, orig)
		if err != nil {
			verifrt.Assert("nothing is returned with an error", len(fi.Data) == 0)
			verifrt.Cover("refused")
			continue
		}
		verifrt.AssertEq("contents", fi.Data, want)
		verifrt.Assert("start address", fi.StartAddress == start)
		d := fi.Descriptor
		verifrt.Assert("length", d.Length == len(want))
		verifrt.Assert("description", d.Name == name && d.Type == vs_type(e[2]) && d.Locked == (e[2] >= 0x80) && d.Sectors == int(e[33])+256*int(e[34]))
		if len(want) > 256 {
			verifrt.Cover("several sectors")
		}
		verifrt.Cover("read")
	}
}

// The raw contents behind it, for any starting list.
func VC_C07_Contents() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genDisk(r)
	orig := verifrt.Clone(img)
	fd := FileDesc{}
	fd.TrackSectorListTrack, fd.TrackSectorListSector = r.Byte()%36, r.Byte()%17
	entries, _, _ := vs_catalog(orig)
	if len(entries) > 0 && !r.Chance(8) {
		fd.FromBytes(verifrt.Clone(entries[r.Intn(len(entries))]))
	}
	want, ok := vs_contents(orig, fd.TrackSectorListTrack, fd.TrackSectorListSector)
	got, err := fd.Contents(img)
	verifrt.Assert("read exactly when it can be", (err == nil) == ok)
	verifrt.AssertEq("reading changes nothing", img, orig)
	if ok {
		verifrt.AssertEq("contents", got, want)
		verifrt.Cover("read")
	} else {
		verifrt.Cover("refused")
	}
}

// ASSUME: files longer than one track/sector list (122 sectors) and sparse files follow the format's own rules: a zero pair inside a file is a sector of zeroes.
