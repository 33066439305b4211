package cmd

import (
	"path"
	"strings"

	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

func vs_globals() *types.Globals {
	return &types.Globals{DiskOperatorFactories: []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}}
}

// Where the sector at each place of a track on the diskette is in an image
// file of DOS and of ProDOS order.
var vs_do = [16]int{0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15}
var vs_po = [16]int{0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15}

var vs_raw = [16]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}

func vs_table(order types.DiskOrder) *[16]int {
	switch order {
	case "po":
		return &vs_po
	case "raw":
		return &vs_raw
	}
	return &vs_do
}

// vs_toFile puts an image in diskette order into the order of a file.
func vs_toFile(raw []byte, order types.DiskOrder) []byte {
	tab := vs_table(order)
	out := make([]byte, len(raw))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[(t*16+tab[s])*256:(t*16+tab[s])*256+256], raw[(t*16+s)*256:(t*16+s)*256+256])
		}
	}
	return out
}

// vs_fromFile is its inverse.
func vs_fromFile(file []byte, order types.DiskOrder) []byte {
	tab := vs_table(order)
	out := make([]byte, len(file))
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			copy(out[(t*16+s)*256:(t*16+s)*256+256], file[(t*16+tab[s])*256:(t*16+tab[s])*256+256])
		}
	}
	return out
}

// vs_orderOf is the order a file name's extension stands for.
func vs_orderOf(name string) types.DiskOrder {
	switch strings.ToLower(path.Ext(name)) {
	case ".dsk", ".do":
		return "do"
	case ".po":
		return "po"
	}
	return ""
}

func vs_other(o types.DiskOrder) types.DiskOrder {
	if o == "do" {
		return "po"
	}
	return "do"
}

func vs_genImage(r *verifrt.Rand, n int) []byte {
	b := make([]byte, n)
	if r.Bool() {
		for i := 0; i+3 < n; i += 128 {
			b[i], b[i+1], b[i+2], b[i+3] = byte(i>>16), byte(i>>8), byte(i), r.Byte()
		}
		return b
	}
	r.Fill(b)
	return b
}

// vs_genNaked makes a NakedOS disk in diskette order, with an empty Super-Mon
// symbol table if so wanted.
func vs_genNaked(r *verifrt.Rand, table bool) []byte {
	img := vs_genImage(r, 143360)
	m := img[0x9d0:0xc00]
	for i := range m {
		switch {
		case i < 12:
			m[i] = 0xfe
		case r.Chance(3):
			m[i] = r.Pick(1, 2, 5, 6, 0x10, 0x40, 0xfd)
		default:
			m[i] = 0xff
		}
	}
	if r.Chance(4) { // nearly full
		for i := 12; i < 560; i++ {
			if m[i] == 0xff && !r.Chance(40) {
				m[i] = 7
			}
		}
	}
	if table {
		p := 12 + r.Intn(400)
		for f := byte(3); f <= 4; f++ {
			for k := 0; k < 16; k++ {
				m[p] = f
				for j := 0; j < 256; j++ {
					img[p*256+j] = 0
				}
				p++
			}
		}
	}
	return img
}

func vs_nakedFile(img []byte, f byte) []byte {
	var b []byte
	for p := 0; p < 560; p++ {
		if img[0x9d0+p] == f {
			b = append(b, img[p*256:p*256+256]...)
		}
	}
	return b
}

// vs_genDOS makes a DOS 3.3 disk in DOS order with one text file, HELLO.
func vs_genDOS(r *verifrt.Rand) []byte {
	img := vs_genImage(r, 143360)
	sec := func(t, s int) []byte { return img[(t*16+s)*256 : (t*16+s)*256+256] }
	for _, b := range [][]byte{sec(17, 0), sec(17, 15), sec(18, 1)} {
		for i := range b {
			b[i] = 0
		}
	}
	v := sec(17, 0)
	v[1], v[2], v[3], v[6], v[0x27], v[0x31], v[0x34], v[0x35], v[0x37] = 17, 15, 3, 254, 122, 1, 35, 16, 1
	c := sec(17, 15)
	c[11], c[12] = 18, 1
	for i := 0; i < 30; i++ {
		c[14+i] = 0xa0
	}
	copy(c[14:], "\xc8\xc5\xcc\xcc\xcf")
	c[44] = 2
	sec(18, 1)[12], sec(18, 1)[13] = 18, 2
	sec(18, 2)[255] = 1
	return img
}

// vs_extCase restricts a name to one of the kinds of extension.
func vs_extCase(name string, k int) {
	e := strings.ToLower(path.Ext(name))
	switch k {
	case 0:
		verifrt.Assume(e == ".dsk")
	case 1:
		verifrt.Assume(e == ".do")
	case 2:
		verifrt.Assume(e == ".po")
	default:
		verifrt.Assume(e != ".dsk")
		verifrt.Assume(e != ".do")
		verifrt.Assume(e != ".po")
	}
}

func vs_genFileName(r *verifrt.Rand) string {
	return r.PickStr("a", "b", "a.po") + r.PickStr(".dsk", ".do", ".po", ".PO", ".Do", ".DSK", "", ".img", ".po.dsk", ".dsk.po", ".dsk.bak")
}
