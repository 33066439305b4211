package applesoft

import (
	"bytes"
	"fmt"

	"github.com/zellyn/diskii/verifrt"
)

// vs_lines is the program in raw, loaded at location: a chain of lines, each a
// link to the next, a line number and text ended by a zero byte.
func vs_lines(raw []byte, location int) (Listing, bool) {
	if n := len(raw); n >= 2 {
		size := int(raw[0]) | int(raw[1])<<8
		if size == n-2 || size == n-3 { // a length, as DOS stores it
			raw = raw[2:]
		}
	}
	lines := Listing{}
	next := location
	for next != 0 {
		at := next - location
		if at < 0 || at+2 > len(raw) {
			return nil, false
		}
		link := int(raw[at]) | int(raw[at+1])<<8
		if link == 0 {
			break
		}
		if link <= next || at+4 > len(raw) {
			return nil, false
		}
		l := Line{Num: int(raw[at+2]) | int(raw[at+3])<<8}
		at += 4
		for {
			if at >= len(raw) || raw[at] > 0xea {
				return nil, false
			}
			if raw[at] == 0 {
				break
			}
			l.Bytes = append(l.Bytes, raw[at])
			at++
		}
		lines = append(lines, l)
		next = link
	}
	return lines, true
}

// Decoding any bytes ends, with the lines of the program or an error.
func VH_C13_Decode() {
	verifrt.Cut("Decode")
	verifrt.Cut("vs_lines")
	raw := verifrt.Bytes("raw", verifrt.Int("n", 0, 1<<20))
	location := verifrt.Int("location", 0, 65535)
	orig := verifrt.Clone(raw)
	got, err := Decode(raw, uint16(location))
	verifrt.AssertEq("decoding changes nothing", raw, orig)
	want, ok := vs_lines(orig, location)
	verifrt.Assert("decoded exactly when it is a program", (err == nil) == ok)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", len(got) == 0)
		verifrt.Cover("not a program")
		return
	}
	verifrt.Assert("every line", len(got) == len(want))
	verifrt.AssertEq("the lines", got, want)
	verifrt.Cover("program")
}

// The published keywords.
var vs_keywords = []string{
	0x80: "END", "FOR", "NEXT", "DATA", "INPUT", "DEL", "DIM", "READ",
	"GR", "TEXT", "PR #", "IN #", "CALL", "PLOT", "HLIN", "VLIN",
	"HGR2", "HGR", "HCOLOR=", "HPLOT", "DRAW", "XDRAW", "HTAB", "HOME",
	"ROT=", "SCALE=", "SHLOAD", "TRACE", "NOTRACE", "NORMAL", "INVERSE", "FLASH",
	"COLOR=", "POP", "VTAB", "HIMEM:", "LOMEM:", "ONERR", "RESUME", "RECALL",
	"STORE", "SPEED=", "LET", "GOTO", "RUN", "IF", "RESTORE", "&",
	"GOSUB", "RETURN", "REM", "STOP", "ON", "WAIT", "LOAD", "SAVE",
	"DEF FN", "POKE", "PRINT", "CONT", "LIST", "CLEAR", "GET", "NEW",
	"TAB(", "TO", "FN", "SPC(", "THEN", "AT", "NOT", "STEP",
	"+", "-", "*", "/", ";", "AND", "OR", ">",
	"=", "<", "SGN", "INT", "ABS", "USR", "FRE", "SCRN (",
	"PDL", "POS", "SQR", "RND", "LOG", "EXP", "COS", "SIN",
	"TAN", "ATN", "PEEK", "LEN", "STR$", "VAL", "ASC", "CHR$",
	"LEFT$", "RIGHT$", "MID$",
}

// vs_text is the text of a line.
func vs_text(num int, t []byte) string {
	var s bytes.Buffer
	fmt.Fprintf(&s, "%d ", num)
	for _, c := range t {
		verifrt.Assume(c <= 0xea)
		if c < 0x80 {
			s.WriteByte(c)
		} else {
			s.WriteString(" " + vs_keywords[c] + " ")
		}
	}
	return s.String()
}

// Each line is listed with its number, keywords and characters.
func VH_C13_Line() {
	verifrt.Cut("String")
	verifrt.Cut("vs_text")
	num := verifrt.Int("num", 0, 65535)
	t := verifrt.Bytes("text", verifrt.Int("n", 0, 1<<20))
	got := Line{Num: num, Bytes: t}.String()
	verifrt.AssertEq("the text", got, vs_text(num, t))
	verifrt.Cover("listed")
}

// vs_listing is the text of a program: its lines.
func vs_listing(p Listing) string {
	var s bytes.Buffer
	for _, l := range p {
		s.WriteString(l.String())
		s.WriteByte('\n')
	}
	return s.String()
}

// A program is listed line by line. (The text of a line, by VH_C13_Line, depends
// on nothing but the line.)
func VH_C13_Listing() {
	verifrt.Cut("Decode")
	verifrt.Cut("String")
	verifrt.Cut("vs_listing")
	verifrt.Opaque("(basic/applesoft.Line).String")
	got, err := Decode(verifrt.Bytes("raw", verifrt.Int("n", 0, 1<<20)), verifrt.U16("location"))
	if err != nil {
		return
	}
	verifrt.AssertEq("the listing", got.String(), vs_listing(got))
	verifrt.Cover("listed")
}
