package dos3

import (
	"github.com/zellyn/diskii/verifrt"
)

func vs_sameDesc(label string, fds []FileDesc, want [][]byte) {
	verifrt.Assert(label+": how many", len(fds) == len(want))
	for i := range fds {
		verifrt.AssertEq(label+": entry", fds[i].ToBytes(), want[i])
		verifrt.Assert(label+": name", fds[i].FilenameString() == vs_name(want[i]))
	}
}

// The catalogue read from any image is the one on the disk, or an error.
func VC_C06_Catalog() {
	img := vs_genDisk(verifrt.NewRand(verifrt.U64("seed")))
	orig := verifrt.Clone(img)
	wantF, wantD, ok := vs_catalog(orig)
	files, deleted, err := ReadCatalog(img, 0)
	verifrt.Assert("read exactly when it is readable", (err == nil) == ok)
	verifrt.AssertEq("reading changes nothing", img, orig)
	if !ok {
		verifrt.Assert("nothing is returned with an error", len(files) == 0 && len(deleted) == 0)
		verifrt.Cover("unreadable")
		return
	}
	vs_sameDesc("files", files, wantF)
	vs_sameDesc("deleted files", deleted, wantD)
	if len(files) > 7 && len(deleted) > 0 {
		verifrt.Cover("several catalogue sectors")
	}
	verifrt.Cover("read")
}

// What the user sees of it.
func VC_C06_Operator() {
	img := vs_genDisk(verifrt.NewRand(verifrt.U64("seed")))
	orig := verifrt.Clone(img)
	want, _, ok := vs_catalog(orig)
	verifrt.Assert("taken for DOS 3.3 exactly when the catalogue is readable", OperatorFactory{}.SeemsToMatch(img, 0) == ok)
	op, err := OperatorFactory{}.Operator(img, 0)
	verifrt.Assert("operator", err == nil)
	descs, err := op.Catalog("")
	verifrt.Assert("listed exactly when it is readable", (err == nil) == ok)
	verifrt.AssertEq("reading changes nothing", img, orig)
	verifrt.AssertEq("the disk's bytes", op.GetBytes(), orig)
	if !ok {
		verifrt.Cover("unreadable")
		return
	}
	verifrt.Assert("every file once", len(descs) == len(want))
	for i, d := range descs {
		e := want[i]
		verifrt.Assert("name", d.Name == vs_name(e))
		verifrt.Assert("locked", d.Locked == (e[2] >= 0x80))
		verifrt.Assert("sectors", d.Sectors == int(e[33])+256*int(e[34]))
		verifrt.Assert("type", d.Type == vs_type(e[2]))
	}
	verifrt.Cover("listed")
}

// The views of one entry, for every entry.
func VH_C06_Entry() {
	e := verifrt.BytesGen("entry", 35, func(r *verifrt.Rand) []byte {
		b := make([]byte, 35)
		r.Fill(b)
		copy(b[3:], vs_genName(r))
		b[0] = r.Pick(0, 1, 0xff, 17, 34, 35, r.Byte())
		b[2] = r.Pick(0, 1, 2, 4, 8, 16, 32, 64, r.Byte()) | r.Pick(0, 0x80)
		return b
	})
	orig := verifrt.Clone(e)
	fd := FileDesc{}
	fd.FromBytes(e)
	st := fd.Status()
	verifrt.Assert("unused", (st == FileDescStatusUnused) == (orig[0] == 0))
	verifrt.Assert("deleted", (st == FileDescStatusDeleted) == (orig[0] == 0xff))
	verifrt.Assert("normal", (st == FileDescStatusNormal) == (orig[0] != 0 && orig[0] != 0xff))
	d := fd.descriptor()
	verifrt.Assert("locked", d.Locked == (orig[2] >= 0x80))
	verifrt.Assert("sectors", d.Sectors == int(orig[33])+256*int(orig[34]))
	verifrt.Assert("type", d.Type == vs_type(orig[2]))
	verifrt.Cover("entry")
}
