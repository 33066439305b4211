package basic

import "github.com/zellyn/diskii/verifrt"

// vs_chevron shows control characters by name and leaves the rest alone.
func vs_chevron(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 32 || c == '\n' || c == '\t':
			out += s[i : i+1]
		case c == 0:
			out += "«NUL»"
		case c <= 26:
			out += "«ctrl-" + string(rune('@'+c)) + "»"
		case c == 27:
			out += "«?»"
		default:
			out += "«" + []string{"FS", "GS", "RS", "US"}[c-28] + "»"
		}
	}
	return out
}

func VC_C13_Control() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	b := make([]byte, r.Intn(40))
	for i := range b {
		b[i] = r.Pick(r.Byte()&31, r.Byte()&127, r.Byte(), 10, 9, 32, 31)
	}
	s := string(b)
	verifrt.Assert("control characters are shown by name", ChevronControlCodes(s) == vs_chevron(s))
	verifrt.Cover("text")
}
