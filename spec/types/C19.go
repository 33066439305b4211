package types

import (
	"strings"

	"github.com/zellyn/diskii/verifrt"
)

type vs_type struct {
	typ              int
	name, three, one string
	extra            bool
}

// The file types of ProDOS, SOS and DOS 3.3 and their names. Of two types with
// the same letter, the first is meant.
var vs_types = []vs_type{
	{0x00, "Typeless", "", "", false},
	{0x01, "BadBlocks", "", "", false},
	{0x02, "SOSPascalCode", "", "", true},
	{0x03, "SOSPascalText", "", "", true},
	{0x04, "ASCIIText", "TXT", "T", false},
	{0x05, "SOSPascalText2", "", "", true},
	{0x06, "Binary", "BIN", "B", false},
	{0x07, "Font", "", "", true},
	{0x08, "GraphicsScreen", "", "", true},
	{0x09, "BusinessBASIC", "", "", true},
	{0x0a, "BusinessBASICData", "", "", true},
	{0x0b, "SOSWordProcessor", "", "", true},
	{0x0c, "SOSSystem", "", "", true},
	{0x0f, "Directory", "DIR", "D", false},
	{0x10, "RPSData", "", "", true},
	{0x11, "RPSIndex", "", "", true},
	{0x19, "AppleWorksDatabase", "ADB", "", false},
	{0x1a, "AppleWorksWordProcessor", "AWP", "", false},
	{0x1b, "AppleWorksSpreadsheet", "ASP", "", false},
	{0xef, "Pascal", "PAS", "", false},
	{0xf0, "Command", "CMD", "", false},
	{0xf1, "UserDefinedF1", "", "", true},
	{0xf2, "UserDefinedF2", "", "", true},
	{0xf3, "UserDefinedF3", "", "", true},
	{0xf4, "UserDefinedF4", "", "", true},
	{0xf5, "UserDefinedF5", "", "", true},
	{0xf6, "UserDefinedF6", "", "", true},
	{0xf7, "UserDefinedF7", "", "", true},
	{0xf8, "UserDefinedF8", "", "", true},
	{0xfa, "IntegerBASIC", "INT", "I", false},
	{0xfb, "IntegerBASICVariables", "IVR", "", false},
	{0xfc, "ApplesoftBASIC", "BAS", "A", false},
	{0xfd, "ApplesoftBASICVariables", "VAR", "", false},
	{0xfe, "Relocatable", "REL", "R", false},
	{0xff, "System", "SYS", "", false},
	{0x100, "S", "", "S", false},
	{0x101, "NewA", "", "A", false},
	{0x102, "NewB", "", "B", false},
}

// vs_all adds the types reserved by SOS and ProDOS.
func vs_all() []vs_type {
	ts := append([]vs_type{}, vs_types...)
	for t := 0; t < 256; t++ {
		hex := string([]byte{"0123456789ABCDEF"[t/16], "0123456789ABCDEF"[t%16]})
		switch {
		case t == 0xd, t == 0xe, t >= 0x12 && t <= 0x18, t >= 0x1c && t < 0xc0:
			ts = append(ts, vs_type{t, "SOSReserved" + hex, "", "", true})
		case t >= 0xc0 && t < 0xef:
			ts = append(ts, vs_type{t, "ProDOSReserved" + hex, "", "", true})
		}
	}
	return ts
}

// Every name, long or short, stands for its type, and no other name is taken.
func VC_C19_Names() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	all := vs_all()
	t := all[r.Intn(len(all))]
	name := r.PickStr(t.name, t.three, t.one)
	switch r.Intn(4) {
	case 0:
		b := []byte(name)
		if len(b) > 0 {
			b[r.Intn(len(b))] = r.Pick('A', 'B', 'T', 'a', '0', ' ')
		}
		name = string(b)
	case 1:
		name = r.PickStr(strings.ToLower(name), name+" ", name+"X", " "+name, name[:len(name)/2], "Z", "XYZ")
	}
	if name == "" {
		return
	}
	want, known := 0, false
	for _, t := range all {
		if t.name == name || t.three == name || t.one == name {
			want, known = t.typ, true
			break
		}
	}
	got, err := FiletypeForName(name)
	verifrt.Assert("known exactly when listed", (err == nil) == known)
	if known {
		verifrt.Assert("its type", int(got) == want)
		verifrt.Cover("known name")
	} else {
		verifrt.Cover("unknown name")
	}
}

// All types are listed once, the ordinary ones when only those are asked for.
func VC_C19_List() {
	all := vs_all()
	for _, extra := range []bool{false, true} {
		seen := map[int]bool{}
		infos := FiletypeInfos(extra)
		for _, i := range infos {
			verifrt.Assert("listed once", !seen[int(i.Type)])
			seen[int(i.Type)] = true
			ok := false
			for _, t := range all {
				if t.typ == int(i.Type) {
					ok = i.Name == t.name && i.ThreeLetter == t.three && i.OneLetter == t.one && i.Extra == t.extra && i.Desc != "" && (extra || !t.extra)
				}
			}
			verifrt.Assert("listed with its names", ok)
			s := i.Type.String()
			verifrt.Assert("described with its name", strings.Contains(s, i.Name))
		}
		n := 0
		for _, t := range all {
			if extra || !t.extra {
				n++
			}
		}
		verifrt.Assert("all listed", len(infos) == n)
	}
	t := verifrt.Int("type", -5, 0x110)
	known := t >= 0 && t <= 0x102 && t != 0xf9
	verifrt.Assert("unknown types are called so", strings.HasPrefix(Filetype(t).String(), "Invalid") == !known)
	verifrt.Cover("listed")
}

// For every name there is.
func VH_C19_Names() {
	name := verifrt.Name("name", func(r *verifrt.Rand) string {
		all := vs_all()
		t := all[r.Intn(len(all))]
		n := r.PickStr(t.name, t.three, t.one)
		if r.Chance(3) {
			n = r.PickStr(strings.ToLower(n), n+" ", n+"X", "B"+n)
		}
		return n
	})
	verifrt.Assume(name != "")
	want, known := vs_meant(name)
	got, err := FiletypeForName(name)
	verifrt.Assert("known exactly when listed", (err == nil) == known)
	verifrt.Assert("its type", err != nil || int(got) == want)
	verifrt.Cover("name")
}

// vs_meant is the type a name stands for.
func vs_meant(name string) (int, bool) {
	for _, t := range vs_all() {
		if t.name == name || t.three == name || t.one == name {
			return t.typ, true
		}
	}
	return 0, false
}

// vs_listed is whether a listing has exactly the types it should, each once
// and with its names.
func vs_listed(infos []FiletypeInfo, all []vs_type, extra bool) bool {
	n := 0
	for _, t := range all {
		if t.extra && !extra {
			continue
		}
		n++
		times := 0
		for _, i := range infos {
			if int(i.Type) == t.typ && i.Name == t.name && i.ThreeLetter == t.three && i.OneLetter == t.one && i.Extra == t.extra {
				times++
			}
		}
		if times != 1 {
			return false
		}
	}
	return n == len(infos)
}

func VH_C19_List() {
	extra := verifrt.Choose("all", 2) == 1
	verifrt.Assert("every type is listed once with its names", vs_listed(FiletypeInfos(extra), vs_all(), extra))
	verifrt.Cover("listed")
}

// Every value is described with its type's name, or as unknown.
func VH_C19_String() {
	switch verifrt.Choose("kind", 4) {
	case 0:
		t := verifrt.IntGen("type below", -1<<63, -1, func(r *verifrt.Rand) int { return -1 - r.Intn(300) })
		verifrt.Assert("unknown types are called so", strings.HasPrefix(Filetype(t).String(), "Invalid"))
	case 1:
		t := verifrt.IntGen("type above", 0x103, 1<<63-1, func(r *verifrt.Rand) int { return 0x103 + r.PickInt(0, 1, 0xfd, r.Intn(70000)) })
		verifrt.Assert("unknown types are called so", strings.HasPrefix(Filetype(t).String(), "Invalid"))
	case 2:
		verifrt.Assert("unknown types are called so", strings.HasPrefix(Filetype(0xf9).String(), "Invalid"))
	case 3:
		for _, t := range vs_all() {
			s := Filetype(t.typ).String()
			verifrt.Assert("described with its name", strings.Contains(s, t.name) && !strings.HasPrefix(s, "Invalid"))
		}
	}
	verifrt.Cover("described")
}
