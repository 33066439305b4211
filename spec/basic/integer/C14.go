package integer

import (
	"strconv"
	"strings"

	"github.com/zellyn/diskii/verifrt"
)

// The keywords of Integer BASIC, from $00 on.
const vs_words = `HIMEM: <token-01> _ : LOAD SAVE CON RUN RUN DEL , NEW CLR AUTO , MAN HIMEM: LOMEM: + - * / = # >= > <= <> < AND OR MOD ^ + ( , THEN THEN , , " " ( ! ! ( PEEK RND SGN ABS PDL RNDX ( + - NOT ( = # LEN( ASC( SCRN( , ( $ $ ( , , ; ; ; , , , TEXT GR CALL DIM DIM TAB END INPUT INPUT INPUT FOR = TO STEP NEXT , RETURN GOSUB REM LET GOTO IF PRINT PRINT PRINT POKE , COLOR= PLOT , HLIN , AT VLIN , AT VTAB = = ) ) LIST , LIST POP NODSP NODSP NOTRACE DSP DSP TRACE PR# IN#`

var vs_wordList = strings.Split(vs_words, " ")

type vs_line struct {
	num  int
	text []byte
}

// vs_decode is the program in raw: lines of a length byte, a line number, the
// text and a byte 1. Up to three bytes may follow the last line.
func vs_decode(raw []byte) (lines []vs_line, ok bool) {
	at, n := 0, len(raw)
	if n >= 2 {
		size := int(raw[0]) | int(raw[1])<<8
		if size == n-2 || size == n-3 { // a length, as DOS stores it
			at = 2
		}
	}
	for n-at >= 4 {
		end := at + int(raw[at])
		if end < at+4 || end > n || raw[end-1] != 1 {
			return nil, false
		}
		lines = append(lines, vs_line{int(raw[at+1]) | int(raw[at+2])<<8, raw[at+3 : end-1]})
		at = end
	}
	return lines, true
}

func vs_alnum(c byte) bool {
	return strings.IndexByte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", c) >= 0
}

// vs_list is the text of a line: keywords (longer ones followed by a space),
// characters stored with the high bit set, and number constants: a digit that
// neither continues a name or number nor is part of a string, then two bytes.
func vs_list(l vs_line) string {
	num := strconv.Itoa(l.num)
	for len(num) < 5 {
		num = " " + num
	}
	s := []byte(num + " ")
	name, str := false, false
	t := l.text
	for len(t) > 0 {
		c := t[0]
		t = t[1:]
		if c < 0x80 {
			w := vs_wordList[c]
			s = append(s, w...)
			if len(w) > 1 {
				s = append(s, ' ')
			}
			name, str = false, c == 0x28
			if c == 0x5d { // REM
				for _, c := range t {
					s = append(s, c^0x80)
				}
				break
			}
			continue
		}
		c ^= 0x80
		switch {
		case name || str || c < '0' || c > '9':
			s = append(s, c)
		case len(t) < 2:
			s = append(s, '?')
		default:
			s = append(s, strconv.Itoa(int(t[0])|int(t[1])<<8)...)
			t = t[2:]
		}
		name = vs_alnum(c)
	}
	return string(s)
}

func vs_genText(r *verifrt.Rand) []byte {
	var t []byte
	for i := r.PickInt(0, 1, 2, 5, 20, 100, 250); i > 0 && len(t) < 250; i-- {
		switch r.Intn(8) {
		case 0:
			t = append(t, r.Pick('0', '5', '9')|0x80, r.Byte(), r.Byte())
		case 1:
			t = append(t, r.Pick('A', 'Z', 'a', 'z', '@', '[', '/', ':', '`', '{', ' ')|0x80)
		case 2:
			t = append(t, r.Pick('0', '5', '9')|0x80)
		case 3:
			t = append(t, r.Byte()&127)
		case 4:
			t = append(t, r.Pick(0x28, 0x29, 0x5d, 0x61, 0x03))
		case 5:
			t = append(t, 0x28, r.Pick('1', 'A', ' ')|0x80, r.Pick('1', 'A', ' ')|0x80, r.Pick('1', 'A', ' ')|0x80, 0x29)
		default:
			t = append(t, r.Byte())
		}
	}
	return t
}

func vs_genProgram(r *verifrt.Rand) []byte {
	var p []byte
	n := r.PickInt(0, 1, 2, 3, 10, 40)
	for k := 0; k < n; k++ {
		t := vs_genText(r)
		if len(t) > 251 {
			t = t[:251]
		}
		p = append(p, byte(len(t)+4), r.Byte(), r.Pick(0, 0, 1, 0x7f, 0xff))
		p = append(p, t...)
		p = append(p, 1)
	}
	if r.Chance(6) {
		for i := r.Intn(6); i > 0; i-- {
			p = append(p, r.Byte())
		}
	}
	if r.Chance(3) && len(p) > 0 {
		switch r.Intn(3) {
		case 0:
			p = p[:r.Intn(len(p)+1)]
		case 1:
			p[r.Intn(len(p))] = r.Pick(0, 1, 2, 3, 4, 5, 0xff, r.Byte())
		case 2:
			p[0] = r.Pick(0, 1, 2, 3, 4, 5, 0xff, r.Byte())
		}
	}
	if r.Bool() {
		size := len(p) - r.PickInt(0, 0, 1)
		if r.Chance(8) {
			size += r.Intn(5) - 2
		}
		p = append([]byte{byte(size), byte(size >> 8)}, p...)
	}
	return p
}

// Decoding any bytes ends, with the lines of the program or an error.
func VC_C14_Decode() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	raw := vs_genProgram(r)
	orig := verifrt.Clone(raw)
	want, ok := vs_decode(orig)
	got, err := Decode(raw)
	verifrt.Assert("decoded exactly when it is a program", (err == nil) == ok)
	verifrt.AssertEq("decoding changes nothing", raw, orig)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(got) == 0)
		verifrt.Cover("not a program")
		return
	}
	verifrt.Assert("every line", len(got) == len(want))
	text := ""
	for i := range got {
		verifrt.Assert("line number", got[i].Num == want[i].num)
		verifrt.AssertEq("line text", append([]byte{}, got[i].Bytes...), append([]byte{}, want[i].text...))
		verifrt.Assert("listed line", got[i].String() == vs_list(want[i]))
		text += vs_list(want[i]) + "\n"
	}
	verifrt.Assert("listing", got.String() == text)
	if len(got) > 3 {
		verifrt.Cover("long program")
	}
	verifrt.Cover("program")
}

// Every token has its keyword.
func VC_C14_Tokens() {
	b := verifrt.Byte("token") & 127
	l := vs_line{10, []byte{b, 0xc1, 0xb1, b, 0xb1, 2, 3}}
	verifrt.Assert("keyword", Line{Num: l.num, Bytes: l.text}.String() == vs_list(l))
	verifrt.Cover("token")
}
