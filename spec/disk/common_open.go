package disk

import (
	"errors"
	"path"
	"strings"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// A stand-in disk system: only what opening and writing back depend on.
type vs_factory struct {
	name    string
	order   types.DiskOrder
	matches [2]bool  // whether it recognises the image read in DOS and ProDOS order
	opens   bool     // whether it can open it
	views   *[2]view // the two views an image can give it
	asked   *int     // images it was shown that are neither
}

type view struct{ data []byte }

func (f vs_factory) Name() string               { return f.name }
func (f vs_factory) DiskOrder() types.DiskOrder { return f.order }
func (f vs_factory) which(b []byte) int {
	for i := 0; i < 2; i++ {
		if vs_same(b, f.views[i].data) {
			return i
		}
	}
	return -1
}
func (f vs_factory) SeemsToMatch(b []byte, debug int) bool {
	w := f.which(b)
	if w < 0 {
		*f.asked++
		return false
	}
	return f.matches[w]
}
func (f vs_factory) Operator(b []byte, debug int) (types.Operator, error) {
	if !f.opens {
		return nil, errors.New("cannot open")
	}
	return vs_op{f.name, f.order, b}, nil
}

func vs_same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type vs_op struct {
	name  string
	order types.DiskOrder
	data  []byte
}

func (o vs_op) Name() string                               { return o.name }
func (o vs_op) DiskOrder() types.DiskOrder                 { return o.order }
func (o vs_op) HasSubdirs() bool                           { return false }
func (o vs_op) Catalog(string) ([]types.Descriptor, error) { return nil, nil }
func (o vs_op) GetFile(string) (types.FileInfo, error)     { return types.FileInfo{}, nil }
func (o vs_op) Delete(string) (bool, error)                { return false, nil }
func (o vs_op) PutFile(types.FileInfo, bool) (bool, error) { return false, nil }
func (o vs_op) GetBytes() []byte                           { return o.data }

var _ types.Operator = vs_op{}

// Where the sector at each place of a track on the diskette is in an image of
// DOS, ProDOS and diskette order.
var vs_do = [16]int{0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15}
var vs_po = [16]int{0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15}
var vs_raw = [16]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}

func vs_table(o types.DiskOrder) *[16]int {
	switch o {
	case "do":
		return &vs_do
	case "po":
		return &vs_po
	}
	return &vs_raw
}

// vs_reorder turns an image of one order into one of another.
func vs_reorder(img []byte, from, to types.DiskOrder) []byte {
	a, b := vs_table(from), vs_table(to)
	out := make([]byte, 143360)
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[(t*16+b[s])*256:(t*16+b[s])*256+256], img[(t*16+a[s])*256:(t*16+a[s])*256+256])
		}
	}
	return out
}

// vs_genFloppy makes an image whose sectors differ.
func vs_genFloppy(r *verifrt.Rand) []byte {
	img := make([]byte, 143360)
	for s := 0; s < 560; s++ {
		img[s*256], img[s*256+255] = byte(s), byte(s>>8)
		img[s*256+1+r.Intn(254)] = r.Byte()
	}
	if r.Chance(3) {
		r.Fill(img)
	}
	return img
}

// vs_extCase restricts a name to one kind of extension.
func vs_extCase(name string, k int) string {
	e := strings.ToLower(path.Ext(name))
	exts := [5]string{".dsk", ".do", ".po", "", ".hdv"}
	if k < 5 {
		verifrt.Assume(e == exts[k])
		return exts[k]
	}
	for _, x := range exts {
		verifrt.Assume(e != x)
	}
	return "other"
}

func vs_genName(r *verifrt.Rand) string {
	return r.PickStr("x", "a", "x.po") + r.PickStr(".dsk", ".do", ".po", ".PO", ".Do", ".DSK", "", ".hdv", ".Hdv", ".img", ".po.dsk", ".dsk.po", ".dsk.bak")
}

// Another stand-in, for proofs: whether it recognises a disk depends on the
// disk alone, so on which of the two views of the file it is shown.
type vs_sys struct {
	i     int
	name  string
	order types.DiskOrder
}

type vs_sysState struct {
	do, po     []byte // the disk if the file is in DOS and in ProDOS order
	isDO, isPO bool   // whether it recognises it
	opens      bool
	opened     bool // what it was opened with
	wasDO      bool
	wasPO      bool
}

var vs_sys0, vs_sys1, vs_sys2 *vs_sysState

func (f vs_sys) st() *vs_sysState {
	switch f.i {
	case 0:
		return vs_sys0
	case 1:
		return vs_sys1
	}
	return vs_sys2
}

func vs_setSys(i int, st *vs_sysState) {
	switch i {
	case 0:
		vs_sys0 = st
	case 1:
		vs_sys1 = st
	case 2:
		vs_sys2 = st
	}
}

func (f vs_sys) Name() string               { return f.name }
func (f vs_sys) DiskOrder() types.DiskOrder { return f.order }
func (f vs_sys) shown(b []byte) (do, po bool) {
	st := f.st()
	do, po = verifrt.Same(b, st.do), verifrt.Same(b, st.po)
	verifrt.Assert("systems are shown the disk in their own order", do || po)
	if do && po {
		verifrt.Assume(st.isDO == st.isPO)
	}
	return do, po
}
func (f vs_sys) SeemsToMatch(b []byte, debug int) bool {
	do, _ := f.shown(b)
	if do {
		return f.st().isDO
	}
	return f.st().isPO
}
func (f vs_sys) Operator(b []byte, debug int) (types.Operator, error) {
	do, po := f.shown(b)
	st := f.st()
	if !st.opens {
		return nil, errors.New("cannot open")
	}
	st.opened, st.wasDO, st.wasPO = true, do, po
	return vs_sysOp(f.i), nil
}

type vs_sysOp int

func (o vs_sysOp) Name() string                               { return vs_sysNames[o] }
func (o vs_sysOp) DiskOrder() types.DiskOrder                 { return "" }
func (o vs_sysOp) HasSubdirs() bool                           { return false }
func (o vs_sysOp) Catalog(string) ([]types.Descriptor, error) { return nil, nil }
func (o vs_sysOp) GetFile(string) (types.FileInfo, error)     { return types.FileInfo{}, nil }
func (o vs_sysOp) Delete(string) (bool, error)                { return false, nil }
func (o vs_sysOp) PutFile(types.FileInfo, bool) (bool, error) { return false, nil }
func (o vs_sysOp) GetBytes() []byte                           { return nil }

var vs_sysNames = [3]string{"dos3", "nakedos", "prodos"}
