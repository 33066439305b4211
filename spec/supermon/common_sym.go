package supermon

import "github.com/zellyn/diskii/verifrt"

func vs_up(c byte) byte {
	if 'a' <= c && c <= 'z' {
		return c - 32
	}
	return c
}

func vs_b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// vs_number is the file number a name denotes by itself, 0 if none.
func vs_number(s string) byte {
	if s == "" || len(s) > 20 {
		return 0
	}
	v := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			v = v*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			v = v*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = v*16 + int(c-'A') + 10
		default:
			return 0
		}
		if v > 0xffff {
			return 0
		}
	}
	if v > 0xdf00 && v < 0xdffe {
		return byte(v)
	}
	if v > 0 && v < 0xfe {
		return byte(v)
	}
	return 0
}

func vs_fold(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = vs_up(b[i])
	}
	return string(b)
}

func vs_recase(r *verifrt.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Chance(3) && b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// vs_makeTable gives files 3 and 4 sixteen sectors each.
func vs_makeTable(r *verifrt.Rand, img []byte) {
	m := img[vs_mapAt:vs_mapEnd]
	for p := 12; p < 560; p++ {
		if m[p] == 3 || m[p] == 4 {
			m[p] = 0xff
		}
	}
	for f := byte(3); f <= 4; f++ {
		for n := 0; n < 16; {
			p := 12 + r.Intn(548)
			if r.Bool() {
				p = 12 + r.Intn(60)
			}
			if m[p] != 3 && m[p] != 4 {
				m[p] = f
				n++
			}
		}
	}
}

// vs_remove takes symbol i out of the table and its chain.
func vs_remove(st []vs_sym, i int) {
	for j := range st {
		if st[j].used && j != i && st[j].link == i {
			st[j].link = st[i].link
		}
	}
	st[i] = vs_sym{link: -1}
}

// vs_numName writes a file number as a name: DFxx or xx, either case.
func vs_numName(r *verifrt.Rand, f byte) string {
	h := "0123456789ABCDEF"
	if r.Bool() {
		h = "0123456789abcdef"
	}
	s := string([]byte{h[f>>4], h[f&15]})
	switch r.Intn(3) {
	case 0:
		return "DF" + s
	case 1:
		return "df" + s
	}
	return s
}
