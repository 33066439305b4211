package disk

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

var vs_orderNames = []types.DiskOrder{"do", "po", "raw"}

// A disk system is given the sectors of a floppy image in its own order
// whatever the file's order, and writing it back restores the file.
func VC_C02_OpenWriteBack() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genFloppy(r)
	orig := verifrt.Clone(img)
	fileOrder := vs_orderNames[r.Intn(2)]
	sysOrder := vs_orderNames[r.Intn(3)]
	name := r.PickStr("x."+string(fileOrder), "x.dsk", "x."+string(fileOrder))
	given := fileOrder
	if name != "x.dsk" && r.Bool() {
		given = "auto"
	}
	path := verifrt.Scratch(name)
	verifrt.PutScratch(path, img)
	var v [2]view
	for i := range v {
		v[i].data = vs_reorder(orig, vs_orderNames[i], sysOrder)
	}
	strange := 0
	f := vs_factory{"sys", sysOrder, [2]bool{true, true}, true, &v, &strange}
	fs := []types.OperatorFactory{f}
	op, order, err := OpenFilename(path, given, r.PickStr("sys", "auto"), fs, 0)
	verifrt.Assert("opened", err == nil && op != nil)
	verifrt.Assert("file order", order == fileOrder)
	verifrt.AssertEq("the system's view of the disk", op.GetBytes(), vs_reorder(orig, fileOrder, sysOrder))
	b := op.GetBytes()
	change := r.Bool()
	if change {
		for k := r.Intn(4); k >= 0; k-- {
			b[r.Intn(len(b))] ^= 1 + r.Byte()%255
		}
	}
	changed := verifrt.Clone(b)
	force := r.Bool()
	out := path
	if r.Bool() {
		out = verifrt.Scratch("out")
	}
	err = WriteBack(out, op, order, force)
	if out == path && !force {
		verifrt.Assert("an existing file is not replaced unless told to", err != nil)
		now, _ := verifrt.GetScratch(path)
		verifrt.AssertEq("an existing file is not replaced unless told to", now, orig)
		return
	}
	verifrt.Assert("written", err == nil)
	now, _ := verifrt.GetScratch(out)
	verifrt.AssertEq("the changes, and only they, are in the file", now, vs_reorder(changed, sysOrder, fileOrder))
	if !change {
		verifrt.AssertEq("writing back restores the file", now, orig)
		verifrt.Cover("unchanged")
	} else {
		verifrt.Cover("changed")
	}
}

// Larger device images are not reordered at all.
func VC_C02_Device() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	n := 512 * r.PickInt(1, 2, 279, 281, 1600, r.Intn(5000))
	img := make([]byte, n)
	for i := 0; i < n; i += 1 + r.Intn(300) {
		img[i] = r.Byte()
	}
	path := verifrt.Scratch(r.PickStr("x.hdv", "x.HDV"))
	verifrt.PutScratch(path, img)
	var v [2]view
	strange := 0
	fs := []types.OperatorFactory{vs_factory{"prodos", "po", [2]bool{}, true, &v, &strange}}
	if n == 143360 {
		return
	}
	op, order, err := OpenFilename(path, types.DiskOrder(r.PickStr("auto", "po")), r.PickStr("auto", "prodos"), fs, 0)
	verifrt.Assert("opened", err == nil && order == "po")
	verifrt.AssertEq("the system's view of the device", op.GetBytes(), img)
	force := r.Bool()
	err = WriteBack(path, op, order, force)
	verifrt.Assert("written if told to replace the file", (err == nil) == force)
	now, _ := verifrt.GetScratch(path)
	verifrt.AssertEq("writing back restores the file", now, img)
	verifrt.Cover("device")
}

// For every image, every file name and every combination of orders.
func VH_C02_Floppy() {
	fileOrder := vs_orderNames[verifrt.Choose("file order", 2)]
	sysOrder := vs_orderNames[verifrt.Choose("system order", 3)]
	in := verifrt.File("in", vs_genName)
	given := fileOrder
	switch verifrt.Choose("order from", 3) {
	case 1: // the extension
		given = "auto"
		vs_extCase(in, map[types.DiskOrder]int{"do": 1, "po": 2}[fileOrder])
	case 2: // what is found
		given = "auto"
		vs_extCase(in, 0)
		verifrt.Assume(fileOrder == "do")
	}
	img := verifrt.BytesGen("img", 143360, vs_genFloppy)
	orig := verifrt.Clone(img)
	verifrt.PutScratch(in, img)
	sys := vs_yes{"sys", sysOrder}
	asked := [2]string{"sys", "auto"}[verifrt.Choose("system", 2)]
	op, order, err := OpenFilename(in, given, asked, []types.OperatorFactory{sys}, 0)
	verifrt.Assert("opened", err == nil)
	verifrt.Assert("file order", order == fileOrder)
	b := op.GetBytes()
	verifrt.AssertEq("the system's view of the disk", b, vs_reorder(orig, fileOrder, sysOrder))
	now, _ := verifrt.GetScratch(in)
	verifrt.AssertEq("opening leaves the file as it was", now, orig)
	changed := verifrt.BytesGen("new", 143360, vs_genFloppy)
	copy(b, changed)
	force := verifrt.Bool("force")
	out := in
	if verifrt.Choose("written to", 2) == 1 {
		out = verifrt.File("out", vs_genName)
	}
	err = WriteBack(out, op, order, force)
	verifrt.NoOtherFiles("no other files appear")
	now, _ = verifrt.GetScratch(out)
	if out == in && !force {
		verifrt.Assert("an existing file is not replaced unless told to", err != nil)
		verifrt.AssertEq("an existing file is not replaced unless told to", now, orig)
		return
	}
	verifrt.Assert("written", err == nil)
	verifrt.AssertEq("the changes, and only they, are in the file", now, vs_reorder(changed, sysOrder, fileOrder))
	// in particular, what was not changed is restored
	verifrt.AssertEq("writing back restores the file", vs_reorder(vs_reorder(orig, fileOrder, sysOrder), sysOrder, fileOrder), orig)
	verifrt.Cover("written")
}

// vs_yes recognises and opens everything.
type vs_yes struct {
	name  string
	order types.DiskOrder
}

func (f vs_yes) Name() string                          { return f.name }
func (f vs_yes) DiskOrder() types.DiskOrder            { return f.order }
func (f vs_yes) SeemsToMatch(b []byte, debug int) bool { return true }
func (f vs_yes) Operator(b []byte, debug int) (types.Operator, error) {
	return vs_op{f.name, f.order, b}, nil
}

// The same for device images, of every size.
func VH_C02_Device() {
	n := 512 * verifrt.IntGen("blocks", 0, 65536, func(r *verifrt.Rand) int { return r.PickInt(0, 1, 2, 279, 281, 1600, r.Intn(5000)) })
	verifrt.Assume(n != 143360)
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	in := verifrt.File("in", vs_genName)
	vs_extCase(in, 4)
	verifrt.PutScratch(in, img)
	given := [2]types.DiskOrder{"auto", "po"}[verifrt.Choose("order", 2)]
	asked := [2]string{"prodos", "auto"}[verifrt.Choose("system", 2)]
	op, order, err := OpenFilename(in, given, asked, []types.OperatorFactory{vs_yes{"prodos", "po"}}, 0)
	verifrt.Assert("opened", err == nil)
	verifrt.Assert("file order", order == "po")
	b := op.GetBytes()
	verifrt.AssertEq("the system's view of the device", b, orig)
	if verifrt.Choose("changed", 2) == 1 {
		copy(b, verifrt.Bytes("new", n))
	}
	changed := verifrt.Clone(b)
	force := verifrt.Bool("force")
	out := in
	if verifrt.Choose("written to", 2) == 1 {
		out = verifrt.File("out", vs_genName)
	}
	err = WriteBack(out, op, order, force)
	verifrt.NoOtherFiles("no other files appear")
	now, _ := verifrt.GetScratch(out)
	if out == in && !force {
		verifrt.Assert("an existing file is not replaced unless told to", err != nil)
		verifrt.AssertEq("an existing file is not replaced unless told to", now, orig)
		return
	}
	verifrt.Assert("written", err == nil)
	verifrt.AssertEq("the changes, and only they, are in the file", now, changed)
	verifrt.Cover("written")
}
