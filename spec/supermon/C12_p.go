package supermon

import (
	"strings"

	"github.com/zellyn/diskii/verifrt"
)

// vs_ghost says how the chains of a well-formed table go: the chain of hash h,
// from its end, is S[h,0], S[h,1], ... S[h,N[h]-1]; D is the place of a symbol.
type vs_ghost struct {
	N [128]uint16
	S [128 * 1024]uint16
	D [819]uint16
}

func (g *vs_ghost) n(h int) int     { return int(g.N[h]) }
func (g *vs_ghost) at(h, d int) int { return int(g.S[h*1024+d]) }
func (g *vs_ghost) d(a uint16, q int) int {
	return int(g.D[q])
}

// vs_cut is the chains after entry i, which was at place d of the chain of
// hash h, is gone.
type vs_cut struct {
	g    *vs_ghost
	h, i int
	p    int
}

func (c *vs_cut) n(h int) int {
	if h == c.h {
		return c.g.n(h) - 1
	}
	return c.g.n(h)
}

func (c *vs_cut) at(h, d int) int {
	if h == c.h && d >= c.p {
		return c.g.at(h, d+1)
	}
	return c.g.at(h, d)
}

func (c *vs_cut) d(a uint16, q int) int {
	if vs_hash16(a) == c.h && c.g.d(a, q) > c.p {
		return c.g.d(a, q) - 1
	}
	return c.g.d(a, q)
}

func vs_hash16(a uint16) int { return int((byte(a) ^ byte(a>>8)) & 127) }

type vs_chainsOf interface {
	n(h int) int
	at(h, d int) int
	d(a uint16, q int) int
}

// vs_entryOK: every symbol is in the chain of its hash, other entries link to
// nothing.
func vs_entryOK(st SymbolTable, g vs_chainsOf, q int) bool {
	if st[q].Address == 0 {
		return st[q].Link == -1
	}
	h := vs_hash16(st[q].Address)
	d := g.d(st[q].Address, q)
	return g.n(h) <= 819 && d < g.n(h) && g.at(h, d) == q
}

// vs_placeOK: every place of a chain has a symbol of that hash, linked to the
// one at the place before.
func vs_placeOK(st SymbolTable, g vs_chainsOf, h, d int) bool {
	if g.n(h) > 819 {
		return false
	}
	if d < 0 || d >= g.n(h) {
		return true
	}
	q := g.at(h, d)
	if q >= 819 || st[q].Address == 0 || vs_hash16(st[q].Address) != h || g.d(st[q].Address, q) != d {
		return false
	}
	if d == 0 {
		return st[q].Link == -1
	}
	return st[q].Link == g.at(h, d-1) && g.at(h, d-1) < 819
}

func vs_genGhost(st SymbolTable, g *vs_ghost) {
	for i := range st {
		if st[i].Address != 0 && st[i].Link == -1 {
			h, n := vs_hash(int(st[i].Address)), 0
			for j := i; j >= 0; n++ {
				g.S[h*1024+n], g.D[j] = uint16(j), uint16(n)
				k := -1
				for l := range st {
					if st[l].Link == j {
						k = l
					}
				}
				j = k
			}
			g.N[h] = uint16(n)
		}
	}
}

// vs_chained makes an arbitrary table and the ghost state that says how its
// chains go.
func vs_chained() (SymbolTable, *vs_ghost) {
	var st SymbolTable
	verifrt.FillSlice("table", &st, 819, vs_genTable(819))
	g := &vs_ghost{}
	verifrt.FillGen("N", &g.N, func(r *verifrt.Rand) []uint64 {
		vs_genGhost(st, g)
		v := make([]uint64, len(g.N))
		for i := range v {
			v[i] = uint64(g.N[i])
		}
		return v
	})
	verifrt.FillGen("S", &g.S, func(r *verifrt.Rand) []uint64 {
		v := make([]uint64, len(g.S))
		for i := range v {
			v[i] = uint64(g.S[i])
		}
		return v
	})
	verifrt.FillGen("D", &g.D, func(r *verifrt.Rand) []uint64 {
		v := make([]uint64, len(g.D))
		for i := range v {
			v[i] = uint64(g.D[i])
		}
		return v
	})
	return st, g
}

// vs_first is the first entry with that name.
func vs_first(st SymbolTable, name string) int {
	q := verifrt.Any(0, 0)
	for i, s := range st {
		verifrt.InvariantAll(q, q < 0 || q >= i || !strings.EqualFold(name, st[q].Name))
		if strings.EqualFold(name, s.Name) {
			return i
		}
	}
	return -1
}

// vs_before is the entry that links to entry i.
func vs_before(st SymbolTable, i int) int {
	q := verifrt.Any(0, 0)
	for j := 0; j < len(st); j++ {
		verifrt.InvariantAll(q, q < 0 || q >= j || q == i || st[q].Link != i)
		if i == j {
			continue
		}
		if st[j].Link == i {
			return j
		}
	}
	return -1
}

func VH_C12_Delete() {
	verifrt.Cut("DeleteSymbol")
	verifrt.Cut("vs_first")
	verifrt.Cut("vs_before")
	st, g := vs_chained()
	name := verifrt.Name("name", func(r *verifrt.Rand) string { return vs_symbolName(r, st) })
	q, h, d := verifrt.Int("q", 0, 818), verifrt.Int("h", 0, 127), verifrt.Int("d", 0, 818)
	oq := st[q]
	i := vs_first(st, name)
	if i < 0 {
		verifrt.Assert("tells that it was not there", !st.DeleteSymbol(name))
		verifrt.AssertEq("nothing changes", st[q], oq)
		verifrt.Cover("not there")
		return
	}
	verifrt.Assume(st[i].Address != 0) // names of entries without address are empty
	hi := vs_hash16(st[i].Address)
	c := &vs_cut{g: g, h: hi, i: i, p: g.d(0, i)}
	verifrt.Assume(vs_entryOK(st, g, i) && vs_placeOK(st, g, hi, c.p) && vs_placeOK(st, g, hi, c.p+1))
	j := vs_before(st, i)
	if j >= 0 {
		verifrt.Assume(vs_entryOK(st, g, j))
		hj := vs_hash16(st[j].Address)
		verifrt.Assume(vs_placeOK(st, g, hj, g.d(0, j)) && vs_placeOK(st, g, hj, g.d(0, j)-1))
		verifrt.Lemma("the one before it", hj == hi && g.d(0, j) == c.p+1)
	} else {
		verifrt.Use(g.at(hi, c.p+1))
		verifrt.Lemma("it is the first of its chain", g.n(hi) == c.p+1)
	}
	verifrt.Assume(vs_entryOK(st, g, q))
	verifrt.Assume(vs_placeOK(st, g, vs_hash16(oq.Address), g.d(0, q)))
	verifrt.Assume(vs_placeOK(st, g, h, d) && vs_placeOK(st, g, h, d+1) && vs_placeOK(st, g, h, d-1))
	verifrt.Assert("tells that it was there", st.DeleteSymbol(name))
	verifrt.Assert("its entry is free", st[i].Address == 0 && st[i].Name == "")
	if q != i {
		verifrt.Assert("other symbols stay", st[q].Address == oq.Address)
		verifrt.AssertEq("other symbols stay", st[q].Name, oq.Name)
	}
	verifrt.Assert("every symbol is in the chain of its hash", vs_entryOK(st, c, q))
	verifrt.Assert("every place of a chain has a symbol", vs_placeOK(st, c, h, d))
	verifrt.Cover("removed")
}

// vs_ins is the chains after entry i was put at the end of the chain of hash h.
type vs_ins struct {
	g    vs_chainsOf
	h, i int
}

func (c *vs_ins) n(h int) int {
	if h == c.h {
		return c.g.n(h) + 1
	}
	return c.g.n(h)
}

func (c *vs_ins) at(h, d int) int {
	if h != c.h {
		return c.g.at(h, d)
	}
	if d == 0 {
		return c.i
	}
	return c.g.at(h, d-1)
}

func (c *vs_ins) d(a uint16, q int) int {
	if vs_hash16(a) != c.h {
		return c.g.d(a, q)
	}
	if q == c.i {
		return 0
	}
	return c.g.d(a, q) + 1
}

// vs_search finds the first entry with that name, and the first without address
// before it.
func vs_search(st SymbolTable, name string) (at, free int, found bool) {
	free = -1
	q := verifrt.Any(0, 0)
	for i, s := range st {
		verifrt.Invariant(free == -1 || free < 819 && st[free].Address == 0)
		verifrt.InvariantAll(q, q < 0 || q >= i || !strings.EqualFold(name, st[q].Name))
		verifrt.InvariantAll(q, free >= 0 || q < 0 || q >= i || st[q].Address != 0)
		if strings.EqualFold(name, s.Name) {
			return i, free, true
		}
		if free == -1 && s.Address == 0 {
			free = i
		}
	}
	return -1, free, false
}

// vs_end is the end of the chain of a hash.
func vs_end(st SymbolTable, h int) (int, bool) {
	q := verifrt.Any(0, 0)
	for i, s := range st {
		verifrt.InvariantAll(q, q < 0 || q >= i || st[q].Address == 0 || vs_hash16(st[q].Address) != h || st[q].Link != -1)
		if s.Address != 0 && vs_hash16(s.Address) == h && s.Link == -1 {
			return i, true
		}
	}
	return -1, false
}

func vs_symbolName(r *verifrt.Rand, st SymbolTable) string {
	if i := r.Intn(819); r.Chance(2) && st[i].Name != "" {
		return vs_recase(r, st[i].Name)
	}
	return vs_genName(r)
}

// Adding a symbol that is not there.
func VH_C12_Add() {
	verifrt.Cut("AddSymbol")
	verifrt.Cut("DeleteSymbol")
	verifrt.Cut("vs_search")
	verifrt.Cut("vs_end")
	st, g := vs_chained()
	name := verifrt.Name("name", func(r *verifrt.Rand) string { return vs_symbolName(r, st) })
	addr := verifrt.U16("address")
	q, h, d := verifrt.Int("q", 0, 818), verifrt.Int("h", 0, 127), verifrt.Int("d", 0, 818)
	oq := st[q]
	if addr == 0 {
		verifrt.Assert("address 0 refused", st.AddSymbol(name, addr) != nil)
		verifrt.AssertEq("nothing changes", st[q], oq)
		return
	}
	at, free, found := vs_search(st, name)
	verifrt.Assume(vs_entryOK(st, g, q) && vs_placeOK(st, g, vs_hash16(oq.Address), g.d(0, q)))
	verifrt.Assume(vs_placeOK(st, g, h, d) && vs_placeOK(st, g, h, d+1) && vs_placeOK(st, g, h, d-1))
	if found {
		verifrt.Assume(st[at].Address != 0) // names of entries without address are empty
		if vs_hash16(st[at].Address) != vs_hash16(addr) {
			return // VH_C12_Move
		}
		verifrt.Assume(vs_entryOK(st, g, at))
		verifrt.Assert("moved", st.AddSymbol(name, addr) == nil)
		verifrt.Assert("its address", st[at].Address == addr)
		if q != at {
			verifrt.AssertEq("other symbols stay", st[q], oq)
		}
		verifrt.Assert("every symbol is in the chain of its hash", vs_entryOK(st, g, q))
		verifrt.Assert("every place of a chain has a symbol", vs_placeOK(st, g, h, d))
		verifrt.Cover("moved")
		return
	}
	verifrt.Use(q)
	verifrt.Assert("the name is not there", !strings.EqualFold(name, st[q].Name))
	if free == -1 {
		verifrt.Assert("every entry is used", oq.Address != 0)
		verifrt.Assert("refused when the table is full", st.AddSymbol(name, addr) != nil)
		verifrt.AssertEq("nothing changes", st[q], oq)
		verifrt.Cover("full")
		return
	}
	vs_insert(st, g, name, addr, free, q, h, d)
	verifrt.Cover("added")
}

func vs_insert(st SymbolTable, g vs_chainsOf, name string, addr uint16, free, q, h, d int) {
	oq := st[q]
	ha := vs_hash16(addr)
	t, found := vs_end(st, ha)
	if found {
		verifrt.Assume(vs_entryOK(st, g, t) && vs_placeOK(st, g, ha, g.d(st[t].Address, t)) && vs_placeOK(st, g, ha, g.d(st[t].Address, t)-1))
		verifrt.Lemma("end of the chain", g.d(st[t].Address, t) == 0)
	} else {
		verifrt.Assume(vs_placeOK(st, g, ha, 0))
		verifrt.Use(g.at(ha, 0))
		verifrt.Lemma("no chain", g.n(ha) == 0)
	}
	verifrt.Assume(g.n(ha) < 819) // places hold different entries, and one entry is free
	c := &vs_ins{g: g, h: ha, i: free}
	verifrt.Assert("added", st.AddSymbol(name, addr) == nil)
	verifrt.Assert("its address", st[free].Address == addr)
	verifrt.AssertEq("its name", st[free].Name, name)
	if q != free {
		verifrt.Assert("other symbols stay", st[q].Address == oq.Address)
		verifrt.AssertEq("other symbols stay", st[q].Name, oq.Name)
	}
	verifrt.Assert("every symbol is in the chain of its hash", vs_entryOK(st, c, q))
	verifrt.Assert("every place of a chain has a symbol", vs_placeOK(st, c, h, d))
}

// Moving a symbol to an address of another hash.
func VH_C12_Move() {
	verifrt.Cut("AddSymbol")
	verifrt.Cut("DeleteSymbol")
	verifrt.Cut("vs_search")
	verifrt.Cut("vs_first")
	verifrt.Cut("vs_before")
	verifrt.Cut("vs_end")
	st, g := vs_chained()
	name := verifrt.Name("name", func(r *verifrt.Rand) string { return vs_symbolName(r, st) })
	addr := verifrt.U16("address")
	q, h, d := verifrt.Int("q", 0, 818), verifrt.Int("h", 0, 127), verifrt.Int("d", 0, 818)
	oq := st[q]
	at, _, found := vs_search(st, name)
	if !found || addr == 0 {
		return // VH_C12_Add
	}
	verifrt.Assume(st[at].Address != 0) // names of entries without address are empty
	if vs_hash16(st[at].Address) == vs_hash16(addr) {
		return // VH_C12_Add
	}
	i := vs_first(st, name)
	verifrt.Use(i)
	verifrt.Use(at)
	verifrt.Lemma("the first", i == at)
	c := &vs_cut{g: g, h: vs_hash16(st[at].Address), i: at, p: g.d(0, at)}
	vs_before(st, at)
	var t SymbolTable
	verifrt.FillSlice("table", &t, 819, vs_genTable(819))
	verifrt.Assert("the old one goes", t.DeleteSymbol(name)) // by VH_C12_Delete
	verifrt.Assume(vs_entryOK(t, c, q) && vs_placeOK(t, c, vs_hash16(t[q].Address), c.d(t[q].Address, q)))
	verifrt.Assume(vs_placeOK(t, c, h, d) && vs_placeOK(t, c, h, d+1) && vs_placeOK(t, c, h, d-1))
	ha := vs_hash16(addr)
	e, some := vs_end(t, ha)
	if some {
		verifrt.Assume(vs_entryOK(t, c, e) && vs_placeOK(t, c, ha, c.d(t[e].Address, e)) && vs_placeOK(t, c, ha, c.d(t[e].Address, e)-1))
		verifrt.Lemma("end of the chain", c.d(t[e].Address, e) == 0)
	} else {
		verifrt.Assume(vs_placeOK(t, c, ha, 0))
		verifrt.Use(c.at(ha, 0))
		verifrt.Lemma("no chain", c.n(ha) == 0)
	}
	verifrt.Assume(c.n(ha) < 819) // places hold different entries, and one entry is free
	n := &vs_ins{g: c, h: ha, i: at}
	verifrt.Assert("moved", st.AddSymbol(name, addr) == nil)
	verifrt.Assert("its address", st[at].Address == addr)
	verifrt.AssertEq("its name", st[at].Name, name)
	if q != at {
		verifrt.Assert("other symbols stay", st[q].Address == oq.Address)
		verifrt.AssertEq("other symbols stay", st[q].Name, oq.Name)
	}
	verifrt.Assert("every symbol is in the chain of its hash", vs_entryOK(st, n, q))
	verifrt.Assert("every place of a chain has a symbol", vs_placeOK(st, n, h, d))
	verifrt.Cover("moved")
}

// Looking up a name gives the address of the symbol of that name, 0 if there is
// none; looking up an address gives its symbols.
func VH_C12_Lookup() {
	verifrt.Cut("ByName")
	verifrt.Cut("SymbolsForAddress")
	verifrt.Cut("vs_first")
	verifrt.Cut("vs_for")
	var st SymbolTable
	n := verifrt.Int("n", 0, 819)
	verifrt.FillSlice("table", &st, n, vs_genTable(n))
	name := verifrt.Name("name", func(r *verifrt.Rand) string { return vs_genName(r) })
	want := uint16(0)
	if i := vs_first(st, name); i != -1 {
		want = st[i].Address
		verifrt.Cover("there")
	}
	verifrt.Assert("lookup by name", st.ByName(name) == want)
	a := verifrt.U16("address")
	verifrt.AssertEq("lookup by address", vs_for(st, a), st.SymbolsForAddress(a))
}

func vs_for(st SymbolTable, a uint16) []Symbol {
	l := []Symbol{}
	for _, s := range st {
		if s.Address == a {
			l = append(l, s)
		}
	}
	return l
}
