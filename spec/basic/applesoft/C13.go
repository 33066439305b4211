package applesoft

import (
	"strconv"
	"strings"

	"github.com/zellyn/diskii/verifrt"
)

// The keywords of Applesoft BASIC, from $80 on (~ stands for a space).
const vs_words = "END FOR NEXT DATA INPUT DEL DIM READ GR TEXT PR~# IN~# CALL PLOT HLIN VLIN HGR2 HGR HCOLOR= HPLOT DRAW XDRAW HTAB HOME ROT= SCALE= SHLOAD TRACE NOTRACE NORMAL INVERSE FLASH COLOR= POP VTAB HIMEM: LOMEM: ONERR RESUME RECALL STORE SPEED= LET GOTO RUN IF RESTORE & GOSUB RETURN REM STOP ON WAIT LOAD SAVE DEF~FN POKE PRINT CONT LIST CLEAR GET NEW TAB( TO FN SPC( THEN AT NOT STEP + - * / ; AND OR > = < SGN INT ABS USR FRE SCRN~( PDL POS SQR RND LOG EXP COS SIN TAN ATN PEEK LEN STR$ VAL ASC CHR$ LEFT$ RIGHT$ MID$"

func vs_word(b byte) string {
	ws := strings.Split(vs_words, " ")
	if int(b)-0x80 >= len(ws) {
		return ""
	}
	return strings.Replace(ws[b-0x80], "~", " ", -1)
}

type vs_line struct {
	num  int
	text []byte
}

// vs_decode is the program in raw, loaded at location: a chain of lines, each
// a link to the next, a line number and text ended by a zero byte.
func vs_decode(raw []byte, location int) (lines []vs_line, ok bool) {
	n := len(raw)
	if n >= 2 {
		size := int(raw[0]) | int(raw[1])<<8
		if size == n-2 || size == n-3 { // a length, as DOS stores it
			raw = raw[2:]
			n -= 2
		}
	}
	if location == 0 {
		return nil, true
	}
	at := 0
	for {
		if at+2 > n {
			return nil, false
		}
		link := int(raw[at]) | int(raw[at+1])<<8
		if link == 0 {
			return lines, true
		}
		if link <= location+at || at+4 > n {
			return nil, false
		}
		end := at + 4
		for end < n && raw[end] != 0 {
			if raw[end] > 0xea {
				return nil, false
			}
			end++
		}
		if end == n {
			return nil, false
		}
		lines = append(lines, vs_line{int(raw[at+2]) | int(raw[at+3])<<8, raw[at+4 : end]})
		at = link - location
	}
}

// vs_list is the text of a line.
func vs_list(l vs_line) string {
	s := strconv.Itoa(l.num) + " "
	for _, c := range l.text {
		if c < 0x80 {
			s += string(rune(c))
		} else {
			s += " " + vs_word(c) + " "
		}
	}
	return s
}

func vs_genProgram(r *verifrt.Rand) ([]byte, int) {
	location := r.PickInt(0x801, 0x801, 0x3001, 0, 1, 0xfff0, 0x800, r.Intn(65536))
	var p []byte
	n := r.PickInt(0, 1, 2, 3, 10, 40)
	for k := 0; k < n; k++ {
		start := len(p)
		p = append(p, 0, 0, r.Byte(), r.Pick(0, 0, 1, 0xff, 0xf9))
		for i := r.PickInt(0, 1, 2, 5, 30, 250); i > 0; i-- {
			c := r.Byte()
			switch r.Intn(40) {
			case 0:
				c = r.Pick(1, 0x1f, 0x20, 0x7f, 0x80, 0xea)
			case 1:
				if r.Chance(4) {
					c = r.Pick(0xeb, 0xff)
				}
			}
			if c == 0 {
				c = 'A'
			}
			if c > 0xea && !r.Chance(100) {
				c -= 0x80
			}
			p = append(p, c)
		}
		p = append(p, 0)
		if r.Chance(15) { // something between the lines
			for i := r.Intn(5); i > 0; i-- {
				p = append(p, r.Byte())
			}
		}
		a := location + len(p)
		p[start], p[start+1] = byte(a), byte(a>>8)
	}
	p = append(p, 0, 0)
	if r.Chance(6) {
		p = append(p, r.Byte())
	}
	if r.Chance(3) && len(p) > 0 { // damage
		switch r.Intn(4) {
		case 0:
			p = p[:r.Intn(len(p)+1)]
		case 1:
			p[r.Intn(len(p))] = r.Pick(0, 1, 0xff, 0xea, 0xeb, r.Byte())
		case 2:
			i := r.Intn(len(p))
			a := location + r.Intn(len(p)+3) - 1
			p[i] = byte(a)
			if i+1 < len(p) {
				p[i+1] = byte(a >> 8)
			}
		case 3:
			p = p[:len(p)-r.Intn(3)%(len(p)+1)]
		}
	}
	if r.Bool() { // with its length
		size := len(p) - r.PickInt(0, 0, 1)
		if r.Chance(8) {
			size += r.Intn(5) - 2
		}
		p = append([]byte{byte(size), byte(size >> 8)}, p...)
	}
	return p, location
}

// Decoding any bytes ends, with the lines of the program or an error.
func VC_C13_Decode() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	raw, location := vs_genProgram(r)
	orig := verifrt.Clone(raw)
	want, ok := vs_decode(orig, location)
	got, err := Decode(raw, uint16(location))
	verifrt.Assert("decoded exactly when it is a program", (err == nil) == ok)
	verifrt.AssertEq("decoding changes nothing", raw, orig)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(got) == 0)
		verifrt.Cover("not a program")
		return
	}
	verifrt.Assert("every line", len(got) == len(want))
	text := ""
	for i := range got {
		verifrt.Assert("line number", got[i].Num == want[i].num)
		verifrt.AssertEq("line text", append([]byte{}, got[i].Bytes...), append([]byte{}, want[i].text...))
		verifrt.Assert("listed line", got[i].String() == vs_list(want[i]))
		text += vs_list(want[i]) + "\n"
	}
	verifrt.Assert("listing", got.String() == text)
	if len(got) > 3 {
		verifrt.Cover("long program")
	}
	verifrt.Cover("program")
}

// Every token has its keyword, and nothing else is a token.
func VC_C13_Tokens() {
	b := verifrt.Byte("token")
	l := Line{Num: 10, Bytes: []byte{b}}
	if b >= 0x80 && b <= 0xea {
		verifrt.Assert("keyword", l.String() == "10  "+vs_word(b)+" ")
		verifrt.Cover("token")
	}
	p := []byte{7, 8, 10, 0, b, 0, 0, 0}
	_, err := Decode(p, 0x801)
	verifrt.Assert("tokens and characters only", (err == nil) == (b <= 0xea && b != 0) || b == 0)
}
