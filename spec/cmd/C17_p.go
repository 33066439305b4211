package cmd

import (
	"errors"
	"path"
	"strings"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// A stand-in disk system that may do anything a disk system may: putting,
// deleting or reading a file may change the disk's bytes in any way, and may
// succeed or fail whether or not it has.
type vs_any struct {
	name  string
	order types.DiskOrder
}

func (f vs_any) Name() string                          { return f.name }
func (f vs_any) DiskOrder() types.DiskOrder            { return f.order }
func (f vs_any) SeemsToMatch(b []byte, debug int) bool { return true }
func (f vs_any) Operator(b []byte, debug int) (types.Operator, error) {
	if vs_may.noOpen {
		return nil, errors.New("cannot open")
	}
	return vs_anyOp{f.name, f.order, b}, nil
}

type vs_anyOp struct {
	name  string
	order types.DiskOrder
	data  []byte
}

// What the system will do, and what it was asked.
var vs_may struct {
	noOpen, fails, says, subdirs bool
	calls                        int
	put                          types.FileInfo
	overwrite                    bool
	asked                        string
}
var vs_new []byte  // the disk's bytes afterwards
var vs_file []byte // what its file holds

func (o vs_anyOp) outcome() (bool, error) {
	vs_may.calls++
	copy(o.data, vs_new)
	if vs_may.fails {
		return vs_may.says, errors.New("failed")
	}
	return vs_may.says, nil
}

func (o vs_anyOp) Name() string               { return o.name }
func (o vs_anyOp) DiskOrder() types.DiskOrder { return o.order }
func (o vs_anyOp) HasSubdirs() bool           { return vs_may.subdirs }
func (o vs_anyOp) GetBytes() []byte           { return o.data }
func (o vs_anyOp) Catalog(dir string) ([]types.Descriptor, error) {
	vs_may.asked = dir
	if _, err := o.outcome(); err != nil {
		return nil, err
	}
	return []types.Descriptor{{Name: "A", Fullname: "A:B"}, {Name: "C"}}, nil
}
func (o vs_anyOp) GetFile(name string) (types.FileInfo, error) {
	vs_may.asked = name
	if _, err := o.outcome(); err != nil {
		return types.FileInfo{}, err
	}
	return types.FileInfo{Data: vs_file}, nil
}
func (o vs_anyOp) Delete(name string) (bool, error) {
	vs_may.asked = name
	return o.outcome()
}
func (o vs_anyOp) PutFile(f types.FileInfo, overwrite bool) (bool, error) {
	vs_may.put, vs_may.overwrite = f, overwrite
	return o.outcome()
}

var _ types.Operator = vs_anyOp{}

// vs_scene is a disk image in a file of any name: a diskette in either order
// on a system of any order, or a device.
type vs_scene struct {
	path         string
	order        types.DiskOrder // of the file
	system       string
	sys          types.DiskOrder // of the system
	img          []byte          // what the file holds
	floppy       bool
	there, opens bool
	globals      *types.Globals
}

func vs_scenery() *vs_scene {
	s := &vs_scene{system: "sys"}
	s.path = verifrt.File("image", vs_genFileName17)
	s.there = verifrt.Bool("the image exists")
	switch k := verifrt.Choose("kind", 7); k {
	case 6:
		e := strings.ToLower(path.Ext(s.path))
		verifrt.Assume(e == ".hdv")
		s.system, s.order, s.sys = "prodos", "po", "po"
		n := 512 * verifrt.IntGen("blocks", 0, 65536, func(r *verifrt.Rand) int { return r.PickInt(0, 1, 2, 279, 281, 1600, r.Intn(5000)) })
		verifrt.Assume(n != 143360)
		s.img = verifrt.Bytes("img", n)
		vs_new = verifrt.Bytes("new", n)
	default:
		s.order = [2]types.DiskOrder{"do", "po"}[k%2]
		s.sys = [3]types.DiskOrder{"do", "po", "raw"}[k/2]
		s.floppy = true
		s.img = verifrt.BytesGen("img", 143360, func(r *verifrt.Rand) []byte { return vs_genImage(r, 143360) })
		vs_new = verifrt.BytesGen("new", 143360, func(r *verifrt.Rand) []byte { return vs_genImage(r, 143360) })
	}
	if s.there {
		verifrt.PutScratch(s.path, s.img)
	}
	vs_may.noOpen, vs_may.fails, vs_may.says, vs_may.subdirs = verifrt.Bool("does not open"), verifrt.Bool("fails"), verifrt.Bool("says"), verifrt.Bool("has subdirectories")
	vs_may.calls, vs_may.asked = 0, ""
	s.opens = s.there && !vs_may.noOpen
	s.globals = &types.Globals{DiskOperatorFactories: []types.OperatorFactory{vs_any{s.system, s.sys}}}
	return s
}

func vs_genFileName17(r *verifrt.Rand) string {
	if r.Chance(3) {
		return r.PickStr("a.hdv", "b.HDV")
	}
	return r.PickStr("a.dsk", "b.do", "c.po", "d", "e.img")
}

// after asserts what became of the image.
func (s *vs_scene) after(done bool) {
	now, is := verifrt.GetScratch(s.path)
	verifrt.NoOtherFiles("no other files appear")
	if !done {
		verifrt.Assert("the image stays as it was", is == s.there)
		if is {
			verifrt.AssertEq("the image stays as it was", now, s.img)
		}
		return
	}
	verifrt.Assert("the image is there", is)
	if !s.floppy {
		verifrt.AssertEq("the image holds the changed disk", now, vs_new)
		return
	}
	verifrt.AssertEq("the image holds the changed disk", now, vs_toFile(vs_fromFile(vs_new, s.sys), s.order))
}

func VH_C17_Put() {
	s := vs_scenery()
	src := verifrt.File("source", func(r *verifrt.Rand) string { return "source" })
	n := verifrt.IntGen("length", 0, 1<<30, func(r *verifrt.Rand) int { return r.Intn(2000) })
	data := verifrt.Bytes("data", n)
	given := verifrt.Clone(data)
	source := verifrt.Bool("the source exists")
	if source {
		verifrt.PutScratch(src, data)
	}
	ft := verifrt.Choose("type", 4)
	c := PutCmd{Order: s.order, System: s.system, FiletypeName: [4]string{"B", "TXT", "nonsense", "Q"}[ft], Overwrite: verifrt.Bool("overwrite"), DiskImage: s.path,
		TargetFilename: verifrt.Name("target", vs_genTarget), SourceFilename: src, Address: verifrt.U16("address")}
	target, address, overwrite := c.TargetFilename, c.Address, c.Overwrite
	err := c.Run(s.globals)
	verifrt.Assert("put exactly when nothing fails", (err == nil) == (s.opens && source && ft < 2 && !vs_may.fails))
	if vs_may.calls > 0 {
		verifrt.Assert("put once", vs_may.calls == 1)
		p := vs_may.put
		verifrt.AssertEq("the file put holds the source's bytes", p.Data, given)
		verifrt.AssertEq("the file put has the name given", p.Descriptor.Name, target)
		verifrt.Assert("the file put has the source's length", p.Descriptor.Length == n)
		verifrt.Assert("the file put has the type given", p.Descriptor.Type == [4]types.Filetype{types.FiletypeBinary, types.FiletypeASCIIText}[ft])
		verifrt.Assert("the file put has the address given", p.StartAddress == address)
		verifrt.Assert("files on the disk are replaced only if told to", vs_may.overwrite == overwrite)
	}
	s.after(err == nil)
	now, is := verifrt.GetScratch(src)
	verifrt.Assert("the source stays", is == source)
	if is {
		verifrt.AssertEq("the source stays as it was", now, given)
	}
	if err == nil {
		verifrt.Cover("put")
	}
}

func vs_genTarget(r *verifrt.Rand) string { return r.PickStr("DF06", "HELLO", "A:B", "x") }

func VH_C17_Delete() {
	s := vs_scenery()
	c := DeleteCmd{Order: s.order, System: s.system, MissingOk: verifrt.Bool("missing is fine"), DiskImage: s.path, Filename: verifrt.Name("target", vs_genTarget)}
	target, missing := c.Filename, c.MissingOk
	err := c.Run(s.globals)
	verifrt.Assert("deleted exactly when nothing fails", (err == nil) == (s.opens && !vs_may.fails && (vs_may.says || missing)))
	if vs_may.calls > 0 {
		verifrt.Assert("deleted once", vs_may.calls == 1)
		verifrt.AssertEq("the file named is deleted", vs_may.asked, target)
	}
	s.after(err == nil)
	if err == nil {
		verifrt.Cover("deleted")
	}
}

func VH_C17_Dump() {
	s := vs_scenery()
	vs_file = verifrt.Bytes("file", verifrt.IntGen("length", 0, 1<<30, func(r *verifrt.Rand) int { return r.Intn(2000) }))
	want := verifrt.Clone(vs_file)
	c := DumpCmd{Order: s.order, System: s.system, DiskImage: s.path, Filename: verifrt.Name("target", vs_genTarget)}
	target := c.Filename
	var err error
	out := verifrt.Std(nil, func() { err = c.Run(s.globals) })
	s.after(false)
	verifrt.Assert("dumped exactly when nothing fails", (err == nil) == (s.opens && !vs_may.fails))
	if err != nil {
		verifrt.Assert("a failed dump prints nothing", len(out) == 0)
		return
	}
	verifrt.AssertEq("the file named is dumped", vs_may.asked, target)
	verifrt.AssertEq("dumped", out, want)
	verifrt.Cover("dumped")
}

func VH_C17_Ls() {
	s := vs_scenery()
	verifrt.Assume(s.there)
	c := LsCmd{Order: s.order, System: s.system, Image: verifrt.OpenScratch(s.path), ShortNames: verifrt.Bool("short")}
	if verifrt.Choose("directory", 2) == 1 {
		c.Directory = verifrt.Name("directory name", vs_genTarget)
	}
	dir := c.Directory
	var err error
	out := verifrt.Std(nil, func() { err = c.Run(s.globals) })
	s.after(false)
	if err == nil {
		want := "A:B\nC\n"
		if c.ShortNames {
			want = "A\nC\n"
		}
		verifrt.AssertEq("listed", out, []byte(want))
		verifrt.AssertEq("the directory named is listed", vs_may.asked, dir)
	} else {
		verifrt.Assert("a failed ls prints nothing", len(out) == 0)
	}
	verifrt.Assert("listed exactly when nothing fails", (err == nil) == (s.opens && !vs_may.fails && (dir == "" || vs_may.subdirs)))
	verifrt.Cover("listed")
}

// mkhello leaves disks of other systems alone.
func VH_C17_MkhelloOther() {
	s := vs_scenery()
	c := MkHelloCmd{Order: s.order, DiskImage: s.path, Filename: verifrt.Name("target", vs_genTarget), Address: verifrt.U16("address"), Start: verifrt.U16("start")}
	err := c.Run(s.globals)
	verifrt.Assert("refused", err != nil)
	s.after(false)
	verifrt.Cover("refused")
}

// reorder replaces an existing file only when told to, or in place.
func VH_C17_Reorder() {
	in := verifrt.File("in", vs_genFileName17)
	out := verifrt.File("out", vs_genFileName17)
	there, exists := verifrt.Bool("the image exists"), verifrt.Bool("the new image exists")
	img := verifrt.BytesGen("img", 143360, func(r *verifrt.Rand) []byte { return vs_genImage(r, 143360) })
	orig := verifrt.Clone(img)
	if there {
		verifrt.PutScratch(in, img)
	}
	old := verifrt.Bytes("old", verifrt.IntGen("old length", 0, 1<<30, func(r *verifrt.Rand) int { return r.Intn(2000) }))
	if exists {
		verifrt.PutScratch(out, old)
	}
	orders := [2]types.DiskOrder{"do", "po"}
	from, to := verifrt.Choose("from", 2), verifrt.Choose("to", 2)
	c := ReorderCmd{Order: orders[from], NewOrder: orders[to], DiskImage: in, NewDiskImage: out, Overwrite: verifrt.Bool("overwrite")}
	inPlace := verifrt.Choose("in place", 2) == 1
	if inPlace {
		c.NewDiskImage = ""
	}
	overwrite := c.Overwrite
	err := c.Run(&types.Globals{})
	verifrt.NoOtherFiles("no other files appear")
	if !inPlace && exists && !overwrite {
		verifrt.Assert("an existing file is not replaced unless told to", err != nil)
	}
	i, iIs := verifrt.GetScratch(in)
	o, oIs := verifrt.GetScratch(out)
	verifrt.Assert("the input stays", iIs == there)
	if iIs && !(inPlace && err == nil) {
		verifrt.AssertEq("the input stays as it was", i, orig)
	}
	if inPlace || err != nil {
		verifrt.Assert("other files stay", oIs == exists)
		if oIs {
			verifrt.AssertEq("other files stay as they were", o, old)
		}
	}
	if err != nil {
		return
	}
	verifrt.Assert("only existing images are converted", there)
	want := vs_toFile(vs_fromFile(orig, orders[from]), orders[to])
	if inPlace {
		verifrt.AssertEq("reordered", i, want)
	} else {
		verifrt.Assert("written", oIs)
		verifrt.AssertEq("reordered", o, want)
	}
	verifrt.Cover("reordered")
}
