package basic

import (
	"bytes"

	"github.com/zellyn/diskii/verifrt"
)

// vs_names shows control characters by name and leaves the rest alone.
func vs_names(s string) string {
	var out bytes.Buffer
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 32 || c == '\n' || c == '\t':
			out.WriteByte(c)
		case c == 0:
			out.WriteString("«NUL»")
		case c <= 26:
			out.WriteString("«ctrl-")
			out.WriteByte('@' + c)
			out.WriteString("»")
		case c == 27:
			out.WriteString("«?»")
		default:
			out.WriteString("«")
			out.WriteByte("FGRU"[c-28])
			out.WriteString("S»")
		}
	}
	return out.String()
}

func VH_C13_Control() {
	verifrt.Cut("ReplaceClass")
	verifrt.Cut("vs_names")
	s := string(verifrt.Bytes("text", verifrt.Int("n", 0, 1<<20)))
	verifrt.AssertEq("control characters are shown by name", ChevronControlCodes(s), vs_names(s))
	verifrt.Cover("text")
}
