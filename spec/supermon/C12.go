package supermon

import (
	"github.com/zellyn/diskii/verifrt"
)

// Histories of additions and deletions on a well-formed symbol table: lookups
// by name (in any case) and by address agree with a plain model, every chain of
// symbols stays whole, and what is stored on the disk is read back.
func VX_C12_History() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genImg(r)
	vs_makeTable(r, img)
	st := vs_genSymbols(r, r.PickInt(0, 1, 3, 10, 60, 300, 2500))
	if r.Chance(4) { // a full or nearly full table
		for i := range st {
			if !st[i].used {
				st = vs_addModel(st, vs_genName(r), 1+r.Intn(65535), i)
			}
		}
		for k := r.Intn(3); k > 0; k-- {
			vs_remove(st, r.Intn(819))
		}
	}
	vs_putSymbols(img, st)
	op, ok := vs_open(img)
	verifrt.Assert("opens", ok)
	verifrt.Assert("table read: "+vs_sameSym(st, op.ST), vs_sameSym(st, op.ST) == "")
	t := op.ST
	for step := 0; step < 12; step++ {
		name := vs_genName(r)
		if r.Chance(2) {
			for k := 0; k < 30; k++ {
				if i := r.Intn(819); st[i].used {
					name = st[i].name
				}
			}
		}
		if r.Chance(3) {
			name = vs_recase(r, name)
		}
		at := -1
		free := -1
		for i := range st {
			if st[i].used && vs_fold(st[i].name) == vs_fold(name) {
				at = i
			}
			if !st[i].used && free == -1 {
				free = i
			}
		}
		switch r.Intn(5) {
		case 0, 1:
			addr := 1 + r.Intn(65535)
			if r.Chance(2) && at >= 0 {
				addr = st[at].addr ^ r.PickInt(0, 0x0101, 0x8000, 0x80, 1, 0x2020)
				if addr == 0 {
					addr = 0x8000
				}
			} else if r.Chance(2) {
				addr = 0xdf00 + r.Intn(256)
			}
			full := at == -1 && free == -1
			err := t.AddSymbol(name, uint16(addr))
			verifrt.Assert("refused exactly when the table is full", (err != nil) == full)
			if err == nil {
				// the code chooses the entry: find it
				i := vs_find(t, name)
				verifrt.Assert("the symbol is there", i >= 0)
				if at >= 0 && vs_hash(st[at].addr) == vs_hash(addr) && i == at {
					st[at].addr = addr
				} else {
					if at >= 0 {
						vs_remove(st, at)
					}
					verifrt.Assert("a free entry is used", !st[i].used)
					st[i] = vs_sym{name: name, addr: addr, link: -1, used: true}
				}
				verifrt.Cover("added")
			}
		case 2, 3:
			found := t.DeleteSymbol(name)
			verifrt.Assert("tells whether it was there", found == (at >= 0))
			if at >= 0 {
				vs_remove(st, at)
				verifrt.Cover("removed")
			}
		default:
			if err := t.AddSymbol(name, 0); err == nil {
				verifrt.Assert("address 0 refused", false)
			}
		}
		vs_compareTable(st, t)
		// lookups
		for k := 0; k < 6; k++ {
			q := vs_genName(r)
			if i := r.Intn(819); st[i].used {
				q = vs_recase(r, st[i].name)
			}
			want := 0
			for i := range st {
				if st[i].used && vs_fold(st[i].name) == vs_fold(q) {
					want = st[i].addr
				}
			}
			verifrt.Assert("lookup by name", int(t.ByName(q)) == want)
			f, err := t.FileForName(q)
			switch {
			case vs_number(q) != 0:
				verifrt.Assert("numbers name themselves", err == nil && f == vs_number(q))
			case want > 0xdf00 && want < 0xdffe:
				verifrt.Assert("symbols name files", err == nil && f == byte(want))
			default:
				verifrt.Assert("other names are not found", err != nil)
			}
			a := 1 + r.Intn(65535)
			if want != 0 {
				a = want
			}
			n := 0
			for i := range st {
				if st[i].used && st[i].addr == a {
					n++
				}
			}
			verifrt.Assert("lookup by address", len(t.SymbolsForAddress(uint16(a))) == n && len(t.SymbolsByAddress()[uint16(a)]) == n)
		}
		if step%4 == 3 {
			err := op.SM.WriteSymbolTable(img, t)
			verifrt.Assert("the table can be written", err == nil)
			now := vs_symbols(img)
			verifrt.Assert("it is on the disk", now != nil)
			verifrt.Assert("chains: "+vs_chainsOK(now), vs_chainsOK(now) == "")
			for i := range st {
				verifrt.Assert("entries on the disk", now[i].used == st[i].used && (!now[i].used || now[i].addr == st[i].addr && now[i].name == vs_fold(st[i].name)))
			}
			op2, ok := vs_open(img)
			verifrt.Assert("opens again", ok)
			vs_compareTable(st, op2.ST)
			verifrt.Cover("stored")
		}
	}
}

func vs_find(t SymbolTable, name string) int {
	at := -1
	for i := range t {
		if t[i].Address != 0 && vs_fold(t[i].Name) == vs_fold(name) {
			verifrt.Assert("a name is in the table once", at == -1)
			at = i
		}
	}
	return at
}

func vs_addModel(st []vs_sym, name string, addr, at int) []vs_sym {
	for i := range st {
		if st[i].used && st[i].name == name {
			return st
		}
	}
	for i := range st {
		if st[i].used && vs_hash(st[i].addr) == vs_hash(addr) && st[i].link == -1 {
			st[i].link = at
			break
		}
	}
	st[at] = vs_sym{name: name, addr: addr, link: -1, used: true}
	return st
}

// vs_compareTable: the table holds the model's symbols, in whole chains.
func vs_compareTable(st []vs_sym, t SymbolTable) {
	verifrt.Assert("819 entries", len(t) == 819)
	now := make([]vs_sym, 819)
	for i := range t {
		now[i] = vs_sym{link: -1}
		if t[i].Address != 0 {
			now[i] = vs_sym{name: t[i].Name, addr: int(t[i].Address), link: t[i].Link, used: true}
		}
		verifrt.Assert("the table holds what was added and not deleted", now[i].used == st[i].used && now[i].addr == st[i].addr && vs_fold(now[i].name) == vs_fold(st[i].name))
	}
	verifrt.Assert("chains: "+vs_chainsOK(now), vs_chainsOK(now) == "")
	for i := range st { // follow the code's choice of links
		st[i].link = now[i].link
	}
}

// Putting files under symbolic names: NAME, xx and DFxx:NAME.
func VX_C12_PutNames() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genImg(r)
	vs_makeTable(r, img)
	st := vs_genSymbols(r, r.PickInt(0, 3, 10, 60))
	vs_putSymbols(img, st)
	op, ok := vs_open(img)
	verifrt.Assert("opens", ok)
	for step := 0; step < 3; step++ {
		name := vs_genName(r)
		if i := r.Intn(819); st[i].used {
			name = st[i].name
		}
		for k := 0; k < 10; k++ {
			if i := r.Intn(819); st[i].used && r.Bool() {
				name = st[i].name
			}
		}
		if vs_number(name) != 0 {
			continue
		}
		f := byte(1 + r.Intn(0xfd))
		full := name
		compound := r.Bool()
		if compound {
			full = vs_numName(r, f) + ":" + name
		}
		at := -1
		for i := range st {
			if st[i].used && vs_fold(st[i].name) == vs_fold(name) {
				at = i
			}
		}
		target := 0
		if compound {
			target = int(f)
		} else if at >= 0 && st[at].addr > 0xdf00 && st[at].addr < 0xdffe {
			target = st[at].addr - 0xdf00
		} else {
			for g := 1; g <= 0xfd && target == 0; g++ {
				if vs_count(vs_owner(img), byte(g)) == 0 {
					target = g
				}
			}
		}
		if target == 0 || target == 3 || target == 4 {
			continue
		}
		data := make([]byte, 1+r.Intn(700))
		r.Fill(data)
		need := (len(data) + 255) / 256
		room := vs_count(vs_owner(img), 0xff) + vs_count(vs_owner(img), byte(target))
		before := verifrt.Clone(img)
		existed := vs_count(vs_owner(img), byte(target)) > 0
		ex, err := op.PutFile(vs_binary(full, data), true)
		verifrt.Assert("refused exactly when there is no room", (err != nil) == (need > room))
		if err != nil {
			verifrt.AssertEq("refused: nothing changes", img, before)
			continue
		}
		verifrt.Assert("tells whether it existed", ex == existed)
		want := make([]byte, 256*need)
		copy(want, data)
		op2, ok := vs_open(img)
		verifrt.Assert("opens again", ok && op2.ST != nil)
		fi, err := op2.GetFile(vs_recase(r, name))
		verifrt.Assert("can be read by its symbol", err == nil)
		verifrt.AssertEq("contents", fi.Data, want)
		fi, err = op2.GetFile(vs_hexName12(target))
		verifrt.Assert("can be read by its number", err == nil)
		verifrt.AssertEq("contents", fi.Data, want)
		now := vs_symbols(img)
		verifrt.Assert("chains: "+vs_chainsOK(now), vs_chainsOK(now) == "")
		for i := range st {
			if st[i].used && i != at {
				j := vs_find(op2.ST, st[i].name)
				verifrt.Assert("other symbols keep their addresses", j >= 0 && int(op2.ST[j].Address) == st[i].addr)
			}
		}
		for g := 1; g <= 0xfd; g++ {
			if g != target && g != 3 && g != 4 {
				verifrt.AssertEq("other files keep their contents", vs_fileBytes(vs_owner(img), img, byte(g)), vs_fileBytes(vs_owner(before), before, byte(g)))
			}
		}
		st = now
		verifrt.Cover("put")
	}
	for _, bad := range []string{"A:B:C", ":ABC", "FE:ABC", "00:ABC", "ZZ:ABC", "12:13", "12:AB", "A-B", "12:ABCDEFGHIJ", "DFFF:ABC"} {
		before := verifrt.Clone(img)
		_, err := op.PutFile(vs_binary(bad, []byte{1}), true)
		verifrt.Assert("improper name refused: "+bad, err != nil)
		verifrt.AssertEq("refused: nothing changes", img, before)
	}
}

func vs_hexName12(f int) string {
	h := "0123456789ABCDEF"
	return "DF" + string([]byte{h[f/16], h[f%16]})
}

// Compound names XXXX, NAME and XXXX:NAME.
func VX_C12_Compound() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	st := vs_genSymbols(r, 20)
	t := make(SymbolTable, 819)
	var names []string
	for i := range st {
		t[i] = Symbol{Link: -1}
		if st[i].used {
			t[i] = Symbol{Name: st[i].name, Address: uint16(st[i].addr), Link: st[i].link}
			names = append(names, st[i].name)
		}
	}
	h := "0123456789ABCDEFabcdef"
	num := make([]byte, 1+r.Intn(5))
	v := 0
	for i := range num {
		num[i] = h[r.Intn(22)]
		d := int(num[i])
		switch {
		case d <= '9':
			d -= '0'
		case d <= 'F':
			d -= 'A' - 10
		default:
			d -= 'a' - 10
		}
		v = v*16 + d
	}
	name := vs_genName(r)
	if r.Bool() && len(names) > 0 {
		name = vs_recase(r, names[r.Intn(len(names))])
	}
	look := func(n string) int {
		for i := range st {
			if st[i].used && vs_fold(st[i].name) == vs_fold(n) {
				return st[i].addr
			}
		}
		return 0
	}
	addr, sym, s, err := t.ParseCompoundSymbol(string(num) + ":" + name)
	if v > 0xffff {
		verifrt.Assert("address too big refused", err != nil)
	} else {
		verifrt.Assert("address and symbol", err == nil && int(addr) == v && int(sym) == look(name) && s == name)
	}
	addr, sym, s, err = t.ParseCompoundSymbol(name)
	hex := true
	hv := 0
	for i := 0; i < len(name); i++ {
		if !(name[i] >= '0' && name[i] <= '9' || vs_up(name[i]) >= 'A' && vs_up(name[i]) <= 'F') {
			hex = false
		}
		d := int(vs_up(name[i])) - '0'
		if d > 9 {
			d -= 7
		}
		hv = hv*16 + d
	}
	switch {
	case look(name) != 0:
		verifrt.Assert("known symbol", err == nil && addr == 0 && int(sym) == look(name) && s == name)
	case hex && hv <= 0xffff:
		verifrt.Assert("a number", err == nil && int(addr) == hv && sym == 0 && s == "")
	default:
		verifrt.Assert("new symbol", err == nil && addr == 0 && sym == 0 && s == name)
	}
	for _, bad := range []string{"", "12:", ":ABC", "1:2:3", "XYZ:ABC", "12:AB", "12:A_B", "A_B", "ABCDEFGHIJ", "12345:ABC"} {
		_, _, _, err := t.ParseCompoundSymbol(bad)
		verifrt.Assert("improper compound refused: "+bad, err != nil)
	}
	verifrt.Cover("parsed")
}
