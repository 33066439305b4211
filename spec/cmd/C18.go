package cmd

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// vs_orders is which order reorder reads and writes. An order given is used;
// one not given is the other of the one given, or else what the extensions
// say, an extension that says nothing standing for the other of the two.
func vs_orders(in string, inOrder types.DiskOrder, out string, outOrder types.DiskOrder) (from, to types.DiskOrder, ok bool) {
	from, to = inOrder, outOrder
	if inOrder == "auto" && outOrder == "auto" {
		from, to = vs_orderOf(in), vs_orderOf(out)
		if from == "" && to == "" {
			return "", "", false
		}
		if from == "" {
			from = vs_other(to)
		}
		if to == "" {
			to = vs_other(from)
		}
	} else if inOrder == "auto" {
		from = vs_other(to)
	} else if outOrder == "auto" {
		to = vs_other(from)
	}
	return from, to, from != to
}

func VC_C18_Reorder() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	names := []string{"a.dsk", "a.do", "a.po", "a.PO", "a.Do", "a.DSK", "a", "a.img", "a.po.dsk", "a.dsk.po", "po", ".do", "a.dsk.bak"}
	in := names[r.Intn(len(names))]
	out := ""
	if !r.Chance(3) {
		out = "b" + names[r.Intn(len(names))]
	}
	orders := []types.DiskOrder{"auto", "do", "po"}
	inO, outO := orders[r.Intn(3)], orders[r.Intn(3)]
	if r.Chance(2) {
		inO, outO = "auto", "auto"
	}
	size := 143360
	if r.Chance(8) {
		size = r.PickInt(0, 143359, 143361, 116480, 4096)
	}
	img := vs_genImage(r, size)
	inPath, outPath := verifrt.Scratch(in), ""
	verifrt.PutScratch(inPath, img)
	if out != "" {
		outPath = verifrt.Scratch(out)
	}
	c := ReorderCmd{Order: inO, NewOrder: outO, DiskImage: inPath, NewDiskImage: outPath, Overwrite: r.Bool()}
	err := c.Run(vs_globals())
	from, to, ok := vs_orders(in, inO, out, outO)
	ok = ok && size == 143360
	verifrt.Assert("done exactly when the orders are known and differ", (err == nil) == ok)
	after, _ := verifrt.GetScratch(inPath)
	if !ok {
		verifrt.AssertEq("the input stays as it was", after, img)
		if out != "" {
			_, exists := verifrt.GetScratch(outPath)
			verifrt.Assert("nothing is written when refused", !exists)
		}
		verifrt.Cover("refused")
		return
	}
	want := vs_toFile(vs_fromFile(img, from), to)
	if out == "" {
		verifrt.AssertEq("converted in place", after, want)
		verifrt.Cover("in place")
		return
	}
	verifrt.AssertEq("the input stays as it was", after, img)
	got, _ := verifrt.GetScratch(outPath)
	verifrt.AssertEq("converted", got, want)
	verifrt.Cover("converted")
}

// For every image, every pair of file names and every choice of orders.
func VH_C18_Reorder() {
	orders := []types.DiskOrder{"auto", "do", "po"}
	inO, outO := orders[verifrt.Choose("order", 3)], orders[verifrt.Choose("new order", 3)]
	in := verifrt.File("in", vs_genFileName)
	out := verifrt.File("out", vs_genFileName)
	inPlace := verifrt.Choose("in place", 2) == 1
	if inO == "auto" && outO == "auto" {
		vs_extCase(in, verifrt.Choose("in extension", 4))
		if !inPlace {
			vs_extCase(out, verifrt.Choose("out extension", 4))
		}
	}
	img := verifrt.BytesGen("img", 143360, func(r *verifrt.Rand) []byte { return vs_genImage(r, 143360) })
	orig := verifrt.Clone(img)
	verifrt.PutScratch(in, img)
	exists := verifrt.Bool("the new image exists")
	old := make([]byte, 12)
	if exists {
		verifrt.PutScratch(out, old)
	}
	outName := out
	if inPlace {
		outName = ""
	}
	c := ReorderCmd{Order: inO, NewOrder: outO, DiskImage: in, NewDiskImage: outName, Overwrite: verifrt.Bool("overwrite")}
	err := c.Run(&types.Globals{})
	from, to, ok := vs_orders(in, inO, outName, outO)
	ok = ok && (inPlace || !exists || c.Overwrite)
	verifrt.Assert("done exactly when the orders are known and differ", (err == nil) == ok)
	after, _ := verifrt.GetScratch(in)
	got, is := verifrt.GetScratch(out)
	verifrt.NoOtherFiles("no other files appear")
	if !ok {
		verifrt.AssertEq("the input stays as it was", after, orig)
		verifrt.Assert("nothing is written when refused", is == exists)
		if exists {
			verifrt.AssertEq("nothing is written when refused", got, old)
		}
		return
	}
	want := vs_toFile(vs_fromFile(orig, from), to)
	if inPlace {
		verifrt.AssertEq("converted in place", after, want)
		verifrt.Assert("no other file is written", is == exists)
		verifrt.Cover("in place")
		return
	}
	verifrt.AssertEq("the input stays as it was", after, orig)
	verifrt.Assert("written", is)
	verifrt.AssertEq("converted", got, want)
	verifrt.Cover("converted")
}

// Images of another size are refused whatever the orders.
func VH_C18_Size() {
	orders := []types.DiskOrder{"auto", "do", "po"}
	inO, outO := orders[verifrt.Choose("order", 3)], orders[verifrt.Choose("new order", 3)]
	in := verifrt.File("in", vs_genFileName)
	out := verifrt.File("out", vs_genFileName)
	if inO == "auto" && outO == "auto" {
		vs_extCase(in, verifrt.Choose("in extension", 4))
		vs_extCase(out, verifrt.Choose("out extension", 4))
	}
	n := verifrt.IntGen("size", 0, 1<<30, func(r *verifrt.Rand) int {
		return r.PickInt(0, 143359, 143361, 116480, 4096, 143360+256, 143360-256, 286720, r.Intn(200000))
	})
	verifrt.Assume(n != 143360)
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	verifrt.PutScratch(in, img)
	outName := out
	if verifrt.Choose("in place", 2) == 1 {
		outName = ""
	}
	c := ReorderCmd{Order: inO, NewOrder: outO, DiskImage: in, NewDiskImage: outName, Overwrite: verifrt.Bool("overwrite")}
	err := c.Run(&types.Globals{})
	verifrt.Assert("refused", err != nil)
	after, _ := verifrt.GetScratch(in)
	verifrt.AssertEq("the input stays as it was", after, orig)
	_, is := verifrt.GetScratch(out)
	verifrt.Assert("nothing is written", !is)
	verifrt.NoOtherFiles("no other files appear")
	verifrt.Cover("refused")
}
