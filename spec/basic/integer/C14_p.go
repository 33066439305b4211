package integer

import (
	"bytes"
	"fmt"
	"strconv"

	"github.com/zellyn/diskii/verifrt"
)

// The lines of a program: each a length byte, a line number, text and a byte 1.
func vs_lines(raw []byte) (Listing, bool) {
	if n := len(raw); n >= 2 {
		size := int(raw[0]) | int(raw[1])<<8
		if size == n-2 || size == n-3 {
			raw = raw[2:]
		}
	}
	lines := Listing{}
	for len(raw) >= 4 {
		n := int(raw[0])
		if n < 4 || n > len(raw) || raw[n-1] != 1 {
			return nil, false
		}
		lines = append(lines, Line{Num: int(raw[1]) | int(raw[2])<<8, Bytes: raw[3 : n-1]})
		raw = raw[n:]
	}
	return lines, true
}

// Decoding any bytes ends, with the lines of the program or an error.
func VH_C14_Decode() {
	verifrt.Cut("Decode")
	verifrt.Cut("vs_lines")
	raw := verifrt.Bytes("raw", verifrt.Int("n", 0, 1<<20))
	orig := verifrt.Clone(raw)
	got, err := Decode(raw)
	verifrt.AssertEq("decoding changes nothing", raw, orig)
	want, ok := vs_lines(orig)
	verifrt.Assert("decoded exactly when it is a program", (err == nil) == ok)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(got) == 0)
		verifrt.Cover("not a program")
		return
	}
	verifrt.Assert("every line", len(got) == len(want))
	verifrt.AssertEq("the lines", got, want)
	verifrt.Cover("program")
}

// The published keywords, from $00 on.
var vs_keywords = []string{
	"HIMEM:", "<token-01>", "_", ":", "LOAD", "SAVE", "CON", "RUN",
	"RUN", "DEL", ",", "NEW", "CLR", "AUTO", ",", "MAN",
	"HIMEM:", "LOMEM:", "+", "-", "*", "/", "=", "#",
	">=", ">", "<=", "<>", "<", "AND", "OR", "MOD",
	"^", "+", "(", ",", "THEN", "THEN", ",", ",",
	`"`, `"`, "(", "!", "!", "(", "PEEK", "RND",
	"SGN", "ABS", "PDL", "RNDX", "(", "+", "-", "NOT",
	"(", "=", "#", "LEN(", "ASC(", "SCRN(", ",", "(",
	"$", "$", "(", ",", ",", ";", ";", ";",
	",", ",", ",", "TEXT", "GR", "CALL", "DIM", "DIM",
	"TAB", "END", "INPUT", "INPUT", "INPUT", "FOR", "=", "TO",
	"STEP", "NEXT", ",", "RETURN", "GOSUB", "REM", "LET", "GOTO",
	"IF", "PRINT", "PRINT", "PRINT", "POKE", ",", "COLOR=", "PLOT",
	",", "HLIN", ",", "AT", "VLIN", ",", "AT", "VTAB",
	"=", "=", ")", ")", "LIST", ",", "LIST", "POP",
	"NODSP", "NODSP", "NOTRACE", "DSP", "DSP", "TRACE", "PR#", "IN#",
}

// vs_text is the text of a line.
func vs_text(num int, t []byte) string {
	var s bytes.Buffer
	fmt.Fprintf(&s, "%5d ", num)
	name, str := false, false
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c < 0x80 {
			w := vs_keywords[c]
			s.WriteString(w)
			if len(w) > 1 {
				s.WriteByte(' ')
			}
			name, str = false, c == 0x28
			if c == 0x5d {
				for _, c := range t[i+1:] {
					s.WriteByte(c ^ 0x80)
				}
				break
			}
			continue
		}
		c -= 0x80
		switch {
		case name || str || c < '0' || c > '9':
			s.WriteByte(c)
		case len(t) < i+3:
			s.WriteByte('?')
		default:
			s.WriteString(strconv.Itoa(int(t[i+1]) | int(t[i+2])<<8))
			i += 2
		}
		name = '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
	}
	return s.String()
}

// Each line is listed with its number, keywords and characters.
func VH_C14_Line() {
	verifrt.Cut("String")
	verifrt.Cut("vs_text")
	num := verifrt.Int("num", 0, 65535)
	t := verifrt.Bytes("text", verifrt.Int("n", 0, 251))
	got := Line{Num: num, Bytes: t}.String()
	verifrt.AssertEq("the text", got, vs_text(num, t))
	verifrt.Cover("listed")
}

// vs_listing is the text of a program: its lines.
func vs_listing(p Listing) string {
	var s bytes.Buffer
	for _, l := range p {
		s.WriteString(l.String())
		s.WriteByte('\n')
	}
	return s.String()
}

// A program is listed line by line. (The text of a line, by VH_C14_Line, depends
// on nothing but the line.)
func VH_C14_Listing() {
	verifrt.Cut("Decode")
	verifrt.Cut("String")
	verifrt.Cut("vs_listing")
	verifrt.Opaque("(basic/integer.Line).String")
	got, err := Decode(verifrt.Bytes("raw", verifrt.Int("n", 0, 1<<20)))
	if err != nil {
		return
	}
	verifrt.AssertEq("the listing", got.String(), vs_listing(got))
	verifrt.Cover("listed")
}
