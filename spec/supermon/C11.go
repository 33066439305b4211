package supermon

import "github.com/zellyn/diskii/verifrt"

// ASSUME: C11 quantifies over symbol names made of ASCII characters (bytes below 0x80).

func vs_letter(c byte) bool { return 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' }
func vs_digit(c byte) bool  { return '0' <= c && c <= '9' }

// vs_symChar draws a character of class 0 (letter), 1 (0-4) or 2 (5-9).
func vs_symChar(name string, class int) byte {
	lo, hi := 'A', 'Z'
	switch class {
	case 1:
		lo, hi = '0', '4'
	case 2:
		lo, hi = '5', '9'
	}
	return byte(verifrt.Int(name, int(lo), int(hi)))
}

// Names of letters and digits: a name of 3 to 9 characters whose letters take
// 5 bits each and digits 6 is accepted exactly when it fits in 48 bits, and
// decoding what was stored gives the name back. The proof goes
// through all combinations of upper case letters, low and high digits.
func vs_names(n int) {
	name := make([]byte, n)
	bits := 0
	labels := [10]string{"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"}
	classes := 1
	for i := 0; i < n; i++ {
		classes *= 3
	}
	pattern := verifrt.Choose("classes", classes)
	for i := n - 1; i >= 0; i-- {
		class := pattern % 3
		pattern /= 3
		name[i] = vs_symChar(labels[i], class)
		if class == 0 {
			bits += 5
		} else {
			bits += 6
		}
	}
	six, err := encodeSymbol(string(name))
	verifrt.Assert("accepted exactly when it fits 48 bits", (err == nil) == (bits <= 48))
	if err != nil {
		return
	}
	verifrt.Cover("accepted")
	verifrt.Assert("six bytes", len(six) == 6)
	got := decodeSymbol(six[:5], six[5])
	verifrt.Assert("decoded length", len(got) == n)
	for i := 0; i < n; i++ {
		verifrt.Assert("decoded name is the name restored", got[i] == name[i])
	}
}

func VH_C11_Names3() { vs_names(3) }
func VH_C11_Names4() { vs_names(4) }
func VH_C11_Names5() { vs_names(5) }
func VH_C11_Names6() { vs_names(6) }
func VH_C11_Names7() { vs_names(7) }
func VH_C11_Names8() { vs_names(8) }
func VH_C11_Names9() { vs_names(9) }

// Lower case letters are stored as upper case ones.
func VH_C11_Case() {
	n := verifrt.Choose("n", 10)
	at := 0
	if n > 0 {
		at = verifrt.Choose("at", n)
	}
	name := verifrt.BytesGen("name", n, func(r *verifrt.Rand) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = r.Pick('A', 'Q', 'Z', 'a', 'z', '0', '5', '9')
		}
		return b
	})
	for i := 0; i < n; i++ {
		verifrt.Assume(name[i] < 0x80)
	}
	upper := verifrt.Clone(name)
	if n > 0 {
		upper[at] = vs_up(name[at])
	}
	six, err := encodeSymbol(string(name))
	six2, err2 := encodeSymbol(string(upper))
	verifrt.Assert("case of any one letter does not matter to acceptance", (err == nil) == (err2 == nil))
	if err == nil && err2 == nil {
		verifrt.Cover("accepted")
		verifrt.AssertEq("case of any one letter does not matter to the stored form", six, six2)
	}
}

// Names that are too short or too long are refused, whatever they hold; the
// empty name is stored as zeros and reads back as empty.
func VH_C11_Lengths() {
	n := verifrt.Int("n", 0, 64)
	verifrt.Assume(n < 3 || n > 9)
	six, err := encodeSymbol(verifrt.Str("name", n))
	verifrt.Assert("refused unless empty", (err == nil) == (n == 0))
	if err == nil {
		verifrt.Cover("empty")
		verifrt.AssertEq("six zero bytes", six, make([]byte, 6))
		verifrt.Assert("decodes as empty", decodeSymbol(six[:5], six[5]) == "")
	} else {
		verifrt.Cover("refused")
	}
}

// A name holding any other ASCII character is refused.
func VH_C11_BadNames() {
	n := verifrt.Choose("n", 12)
	if n == 0 {
		return
	}
	bad := verifrt.Choose("bad", n)
	name := verifrt.BytesGen("name", n, func(r *verifrt.Rand) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'A' + byte(r.Intn(26))
		}
		b[bad] = r.Pick('_', '.', ' ', '@', '[', '`', '{', '/', ':', 0, 0x7f)
		return b
	})
	for i := 0; i < n; i++ {
		verifrt.Assume(name[i] < 0x80)
	}
	verifrt.Assume(!vs_letter(name[bad]))
	verifrt.Assume(!vs_digit(name[bad]))
	_, err := encodeSymbol(string(name))
	verifrt.Assert("a name with another character is refused", err != nil)
	verifrt.Cover("refused")
}
