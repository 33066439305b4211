package dos3

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// vs_at is the sector at a track and sector of the image, if the image has it.
func vs_at(img []byte, t, s byte) ([]byte, bool) {
	p := (int(t)*16 + int(s)) * 256
	if p+256 > len(img) {
		return nil, false
	}
	return img[p : p+256], true
}

// vs_vtocOK tells whether a VTOC has the values DOS 3.3 gives it.
func vs_vtocOK(v []byte) bool {
	if v[3] != 3 || v[6] == 255 || v[0x27] != 122 || v[0x31] != 1 && v[0x31] != 255 || v[0x34] != 35 {
		return false
	}
	if v[0x35] != 13 && v[0x35] != 16 || v[0x36] != 0 || v[0x37] != 1 {
		return false
	}
	for i := 0; i < 50; i++ {
		if v[0x38+4*i+2] != 0 || v[0x38+4*i+3] != 0 {
			return false
		}
	}
	return true
}

// vs_catalog gives the 35-byte entries of a DOS 3.3 catalogue in order, or
// says that there is none that can be read.
func vs_catalog(img []byte) (files, deleted [][]byte, ok bool) {
	v, has := vs_at(img, 17, 0)
	if !has || !vs_vtocOK(v) {
		return nil, nil, false
	}
	t, s := v[1], v[2]
	been := make([]bool, 65536)
	for t != 0 || s != 0 {
		c, has := vs_at(img, t, s)
		if !has || t >= 35 || s >= v[0x35] || been[int(t)*256+int(s)] {
			return nil, nil, false
		}
		been[int(t)*256+int(s)] = true
		for k := 0; k < 7; k++ {
			e := c[11+35*k : 11+35*k+35]
			switch e[0] {
			case 0:
			case 0xff:
				deleted = append(deleted, e)
			default:
				files = append(files, e)
			}
		}
		t, s = c[1], c[2]
	}
	return files, deleted, true
}

// vs_name is the name in a 35-byte entry: 30 characters with the high bit set,
// padded with spaces. A deleted file's last character has been overwritten.
func vs_name(e []byte) string {
	n := 30
	if e[0] == 0xff {
		n = 29
	}
	for n > 0 && e[3+n-1] == 0xa0 {
		n--
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = e[3+i] ^ 0x80
	}
	return string(b)
}

// vs_type is the type of a file with the given type byte.
func vs_type(b byte) types.Filetype {
	switch b & 0x7f {
	case 0:
		return 4 // text
	case 1:
		return 0xfa // Integer BASIC
	case 2:
		return 0xfc // Applesoft BASIC
	case 4:
		return 6 // binary
	case 8:
		return 0x100
	case 0x10:
		return 0xfe // relocatable
	case 0x20:
		return 0x101
	case 0x40:
		return 0x102
	}
	return 0
}

// vs_contents is the data of a file whose first track/sector list is at t, s:
// the listed sectors in order, a pair of zeroes standing for a sector of
// zeroes; the last list ends at its last pair that is not zeroes.
func vs_contents(img []byte, t, s byte) (data []byte, ok bool) {
	been := make([]bool, 65536)
	for t != 0 || s != 0 {
		l, has := vs_at(img, t, s)
		if !has || been[int(t)*256+int(s)] {
			return nil, false
		}
		been[int(t)*256+int(s)] = true
		n := 122
		if l[1] == 0 && l[2] == 0 {
			for n > 0 && l[12+2*(n-1)] == 0 && l[13+2*(n-1)] == 0 {
				n--
			}
		}
		for k := 0; k < n; k++ {
			a, b := l[12+2*k], l[13+2*k]
			if a == 0 && b == 0 {
				data = append(data, make([]byte, 256)...)
				continue
			}
			d, has := vs_at(img, a, b)
			if !has {
				return nil, false
			}
			data = append(data, d...)
		}
		t, s = l[1], l[2]
	}
	return data, true
}

// vs_get is what a user gets for a catalogue entry: the program, binary or
// text without the header and padding DOS stores with it.
func vs_get(img []byte, e []byte) (data []byte, start uint16, ok bool) {
	data, ok = vs_contents(img, e[0], e[1])
	if !ok {
		return nil, 0, false
	}
	switch e[2] & 0x7f {
	case 0:
		n := len(data)
		for n > 0 && data[n-1] == 0 {
			n--
		}
		return data[:n], 0, true
	case 1:
	case 2:
		start = 0x801
	case 4:
		if len(data) < 2 {
			return nil, 0, false
		}
		start = uint16(data[0]) | uint16(data[1])<<8
		data = data[2:]
	default:
		return nil, 0, false
	}
	if len(data) < 2 || int(data[0])+256*int(data[1]) > len(data)-2 {
		return nil, 0, false
	}
	return data[2 : 2+int(data[0])+256*int(data[1])], start, true
}

// ---- generators

func vs_genName(r *verifrt.Rand) []byte {
	n := make([]byte, 30)
	for i := range n {
		n[i] = 0xa0
	}
	for i := r.PickInt(0, 1, 2, 5, 12, 29, 30); i > 0; i-- {
		n[i-1] = r.Pick('A'|0x80, 'Z'|0x80, 0xa0, '9'|0x80, '.'|0x80, 0x8d)
	}
	if r.Chance(10) {
		n[r.Intn(30)] = r.Byte()
	}
	if r.Chance(10) {
		n[29] = r.Byte()
	}
	return n
}

// vs_genDisk makes a DOS 3.3 disk with a few files, sometimes damaged.
func vs_genDisk(r *verifrt.Rand) []byte {
	img := make([]byte, 143360)
	if r.Bool() {
		r.Fill(img)
	}
	sec := func(t, s int) []byte { return img[(t*16+s)*256 : (t*16+s)*256+256] }
	v := sec(17, 0)
	for i := range v {
		v[i] = 0
	}
	v[1], v[2], v[3], v[6], v[0x27], v[0x31], v[0x34], v[0x35], v[0x37] = 17, 15, 3, r.Byte()&127, 122, r.Pick(1, 255), 35, 16, 1
	if r.Chance(8) {
		v[0x35] = 13
	}
	for i := 0; i < 35; i++ {
		v[0x38+4*i], v[0x39+4*i] = r.Byte(), r.Byte()
	}
	perm := make([]int, 560)
	for i := range perm {
		perm[i] = i
	}
	for i := range perm {
		j := i + r.Intn(560-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	take := func() (byte, byte) {
		for len(perm) > 0 {
			p := perm[0]
			perm = perm[1:]
			if p != 0 && p != 17*16 && p%16 < int(v[0x35]) {
				return byte(p / 16), byte(p % 16)
			}
		}
		return 1, 1
	}
	if r.Chance(8) {
		v[1], v[2] = 0, 0
		return vs_damage(r, img)
	}
	v[1], v[2] = take()
	ncat := r.PickInt(1, 1, 2, 3, 15, 60)
	t, s := int(v[1]), int(v[2])
	var lastName []byte
	for k := 0; k < ncat; k++ {
		c := sec(t, s)
		for i := range c {
			c[i] = 0
		}
		for i := 0; i < 7; i++ {
			e := c[11+35*i : 11+35*i+35]
			if r.Chance(4) {
				if r.Bool() {
					copy(e[1:], vs_genName(r))
				}
				continue
			}
			name := vs_genName(r)
			if lastName != nil && r.Chance(8) {
				name = lastName
			}
			lastName = name
			copy(e[3:], name)
			e[2] = r.Pick(0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 3, 0x7f) | r.Pick(0, 0x80)
			if r.Chance(4) {
				e[2] = r.Pick(0, 1, 2, 4)
			}
			e[33], e[34] = r.Pick(0, 1, 255), r.Pick(0, 0, 1, 255)
			if r.Chance(5) {
				e[0], e[1] = 0xff, r.Byte()
				continue
			}
			vs_genFile(r, e, sec, take, ncat)
		}
		if k == ncat-1 {
			c[1], c[2] = 0, 0
		} else {
			c[1], c[2] = take()
			t, s = int(c[1]), int(c[2])
		}
	}
	return vs_damage(r, img)
}

func vs_genFile(r *verifrt.Rand, e []byte, sec func(t, s int) []byte, take func() (byte, byte), ncat int) {
	e[0], e[1] = take()
	if e[0] == 0 {
		e[0] = 1
	}
	t, s := e[0], e[1]
	var lists [][2]byte
	nl := r.PickInt(1, 1, 1, 2, 3)
	if ncat > 3 {
		nl = 1
	}
	first := true
	for k := 0; k < nl; k++ {
		l := sec(int(t), int(s))
		lists = append(lists, [2]byte{t, s})
		for i := range l {
			l[i] = 0
		}
		n := r.PickInt(0, 1, 1, 2, 3, 5)
		if k < nl-1 || r.Chance(10) {
			n = r.PickInt(121, 122, 100)
		}
		for i := 0; i < n; i++ {
			if r.Chance(4) && !(first) {
				continue
			}
			a, b := take()
			if r.Chance(20) {
				a, b = r.Byte()%35, r.Byte()%16
			}
			l[12+2*i], l[13+2*i] = a, b
			d := sec(int(a), int(b))
			if first {
				if e[2]&0x7f == 4 {
					d[0], d[1] = r.Byte(), r.Byte()
					d = d[2:]
				}
				size := r.PickInt(0, 1, 2, r.Intn(256), 251, 252, 253, 254, 255, 256*n-r.Intn(6), 256*n*nl)
				if size < 0 {
					size = 0
				}
				d[0], d[1] = byte(size), byte(size>>8)
				first = false
			}
			if r.Chance(3) {
				z := d[r.Intn(len(d)):]
				if len(z) < len(d)-4 {
					for q := range z {
						z[q] = 0
					}
				}
			}
		}
		if k < nl-1 {
			l[1], l[2] = take()
			t, s = l[1], l[2]
		} else if r.Chance(10) { // back to one of its lists
			to := lists[r.Intn(len(lists))]
			l[1], l[2] = to[0], to[1]
		}
	}
}

func vs_damage(r *verifrt.Rand, img []byte) []byte {
	if r.Chance(3) { // somewhere that matters
		p := 17 * 4096
		for hop := r.Intn(4); hop > 0; hop-- {
			q := (int(img[p+1])*16 + int(img[p+2])) * 256
			if q+256 > len(img) || q == 0 {
				break
			}
			p = q
		}
		switch r.Intn(6) {
		case 0:
			img[p+1] = r.Pick(0, 17, 34, 35, 255, r.Byte())
		case 1:
			img[p+2] = r.Pick(0, 12, 13, 15, 16, 255, r.Byte())
		case 2:
			img[p+1], img[p+2] = r.Byte()%35, r.Byte()%16
		case 3:
			img[p+r.Intn(256)] = r.Byte()
		case 4:
			img[p+r.PickInt(3, 6, 0x27, 0x31, 0x34, 0x35, 0x36, 0x37, 0x3a, 0x3b, 0xfe, 0xff, 0xc6)] = r.Pick(0, 1, 255, 254, 2, 13, 16, 35, 36)
		case 5:
			k := 11 + 35*r.Intn(7)
			img[p+k+r.Intn(3)] = r.Byte()
		}
	}
	if r.Chance(12) { // a loop between two catalogue or list sectors
		a, b := r.Intn(560), r.Intn(560)
		img[a*256+1], img[a*256+2] = byte(b/16), byte(b%16)
	}
	if r.Chance(12) {
		img = img[:r.PickInt(0, 255, 256, 17*4096, 17*4096+255, 17*4096+256, 18*4096-1, r.Intn(143361))]
	}
	return img
}
