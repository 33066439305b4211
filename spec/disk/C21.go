package disk

import (
	"strings"

	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// vs_ext is the lower-case extension of a file name.
func vs_ext(name string) string {
	name = name[strings.LastIndex(name, "/")+1:]
	if i := strings.LastIndex(name, "."); i >= 0 {
		return strings.ToLower(name[i:])
	}
	return ""
}

// vs_choose is how a floppy image should be opened: the first order, and in it
// the first system, that recognises and opens it; a system and order that are
// both given are not questioned.
func vs_choose(ext string, order types.DiskOrder, system string, fs []vs_factory) (sys int, fileOrder types.DiskOrder, ok bool) {
	var orders []types.DiskOrder
	switch {
	case order == "do" || order == "po":
		orders = []types.DiskOrder{order}
	case order != "auto":
		return 0, "", false
	case ext == ".po":
		orders = []types.DiskOrder{"po"}
	case ext == ".do":
		orders = []types.DiskOrder{"do"}
	case ext == ".dsk" || ext == "":
		orders = []types.DiskOrder{"do", "po"}
	default:
		return 0, "", false
	}
	for _, o := range orders {
		w := 0
		if o == "po" {
			w = 1
		}
		for i, f := range fs {
			if system != "auto" && system != f.name {
				continue
			}
			if system != "auto" && len(orders) == 1 {
				return i, o, f.opens
			}
			if f.matches[w] && f.opens {
				return i, o, true
			}
		}
	}
	return 0, "", false
}

func VC_C21_Floppy() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	img := vs_genFloppy(r)
	orig := verifrt.Clone(img)
	var mine []vs_factory
	var fs []types.OperatorFactory
	strange := 0
	for _, n := range []string{"dos3", "nakedos", "prodos"}[r.Intn(2):] {
		o := vs_orderNames21[r.Intn(3)]
		v := new([2]view)
		v[0].data, v[1].data = vs_reorder(orig, "do", o), vs_reorder(orig, "po", o)
		f := vs_factory{n, o, [2]bool{r.Chance(3), r.Chance(3)}, !r.Chance(4), v, &strange}
		mine = append(mine, f)
		fs = append(fs, f)
	}
	name := r.PickStr("x.dsk", "x.do", "x.po", "x", "x.PO", "x.Do", "x.DSK", "x.hdv", "x.img", "a.po/x", "x.po.dsk", "x.dsk.po")
	order := types.DiskOrder(r.PickStr("auto", "auto", "auto", "do", "po", "raw", "", "x"))
	system := r.PickStr("auto", "auto", "dos3", "nakedos", "prodos", "cpm")
	op, got, err := OpenImage(img, name, order, system, fs, 0)
	verifrt.AssertEq("the image stays as it was", img, orig)
	verifrt.Assert("systems are shown the disk in their own order", strange == 0)
	known := system == "auto"
	for _, f := range mine {
		known = known || f.name == system
	}
	i, want, ok := vs_choose(vs_ext(name), order, system, mine)
	ok = ok && known
	verifrt.Assert("opened exactly when something recognises it", (err == nil) == ok)
	if !ok {
		verifrt.Assert("nothing is returned with an error", op == nil && got == "")
		verifrt.Cover("refused")
		return
	}
	verifrt.Assert("the right system", op.Name() == mine[i].name && op.DiskOrder() == mine[i].order)
	verifrt.Assert("the right order", got == want)
	verifrt.AssertEq("in the system's order", op.GetBytes(), vs_reorder(orig, want, mine[i].order))
	verifrt.Cover("opened")
}

var vs_orderNames21 = []types.DiskOrder{"do", "po", "raw"}

// Anything else: only .hdv files of whole blocks, up to 32 MiB, as ProDOS.
func VC_C21_Device() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	n := r.PickInt(0, 1, 511, 512, 513, 1024, 116480, 143359, 143361, 143872, 143360-512, 819200, r.Intn(300000), 512*r.Intn(2000))
	if r.Chance(300) {
		n = r.PickInt(65536*512, 65536*512+512, 65536*512+1, 65535*512, 65537*512)
	}
	img := make([]byte, n)
	name := r.PickStr("x.hdv", "x.hdv", "x.hdv", "x.HDV", "x.Hdv", "x.dsk", "x.po", "x", "x.hdv.po", "x.po.hdv")
	order := types.DiskOrder(r.PickStr("auto", "auto", "po", "do", "raw"))
	system := r.PickStr("auto", "auto", "prodos", "dos3", "x")
	var v [2]view
	strange := 0
	pro := vs_factory{"prodos", "po", [2]bool{}, !r.Chance(5), &v, &strange}
	fs := []types.OperatorFactory{vs_factory{"dos3", "do", [2]bool{}, true, &v, &strange}}
	has := !r.Chance(6)
	if has {
		fs = append(fs, pro)
	}
	if n == 143360 {
		return
	}
	op, got, err := OpenImage(img, name, order, system, fs, 0)
	ok := vs_ext(name) == ".hdv" && n != 116480 && n%512 == 0 && n <= 65536*512 && (order == "auto" || order == "po") && (system == "auto" || system == "prodos") && has && pro.opens
	verifrt.Assert("opened exactly when it is a ProDOS device image", (err == nil) == ok)
	if !ok {
		verifrt.Assert("nothing is returned with an error", op == nil && got == "")
		verifrt.Cover("refused")
		return
	}
	verifrt.Assert("as ProDOS", op.Name() == "prodos" && got == "po")
	verifrt.Assert("unchanged", len(op.GetBytes()) == n)
	verifrt.Cover("opened")
}

// The order a file name stands for.
func VC_C21_OrderFromFilename() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	name := ""
	for k := r.Intn(6); k >= 0; k-- {
		name += r.PickStr("a", ".", "do", "po", "dsk", ".do", ".po", ".dsk", ".DO", ".Po", "/", "\\", " ", ".dskx", "é")
	}
	def := types.DiskOrder(r.PickStr("", "do", "po", "x"))
	want := def
	switch vs_ext(name) {
	case ".do", ".dsk":
		want = "do"
	case ".po":
		want = "po"
	}
	verifrt.Assert("the order the extension stands for", OrderFromFilename(name, def) == want)
	verifrt.Cover("name")
}

// For every image and file name, and systems that recognise and open whatever
// they may.
func VH_C21_Floppy() {
	n := 3
	if k := verifrt.Choose("systems", 4); k > 0 {
		n = k - 1
	}
	rot := 0
	if n == 3 {
		rot = verifrt.Choose("rotation", 3)
	}
	system := vs_system(verifrt.Choose("system", 5))
	order := vs_order(verifrt.Choose("order", 4))
	name := verifrt.Name("name", vs_genName)
	ext := ""
	if order == "auto" {
		ext = vs_extCase(name, verifrt.Choose("extension", 6))
	}
	img := verifrt.BytesGen("img", 143360, vs_genFloppy)
	orig := verifrt.Clone(img)
	var mine [3]vs_sys
	var fs []types.OperatorFactory
	tags := [3]string{"a", "b", "c"}
	for i := 0; i < n; i++ {
		o := vs_orderNames21[(i+rot)%3]
		st := &vs_sysState{do: vs_reorder(orig, "do", o), po: vs_reorder(orig, "po", o),
			isDO: verifrt.Bool(tags[i] + " recognises DOS"), isPO: verifrt.Bool(tags[i] + " recognises ProDOS"), opens: verifrt.Bool(tags[i] + " opens")}
		vs_setSys(i, st)
		mine[i] = vs_sys{i, vs_sysNames[i], o}
		fs = append(fs, mine[i])
	}
	op, got, err := OpenImage(img, name, order, system, fs, 0)
	verifrt.AssertEq("the image stays as it was", img, orig)

	which, want := vs_chosen(&mine, n, system, order, ext)
	verifrt.Assert("opened exactly when something recognises it", (err == nil) == (which >= 0))
	if err != nil {
		verifrt.Assert("nothing is returned with an error", op == nil && got == "")
		verifrt.Cover("refused")
		return
	}
	verifrt.Assert("the right order", got == want)
	id, is := op.(vs_sysOp)
	verifrt.Assert("the right system", is && int(id) == which)
	for i := 0; i < n; i++ {
		if i == which {
			st := mine[i].st()
			verifrt.Assert("opened with the disk in the system's order", st.opened && (want != "do" || st.wasDO) && (want != "po" || st.wasPO))
		}
	}
	verifrt.Cover("opened")
}

// vs_chosen is the system and order that should be chosen, or -1: going
// backwards, the last of those that will do.
func vs_chosen(mine *[3]vs_sys, n int, system string, order types.DiskOrder, ext string) (int, types.DiskOrder) {
	which, want := -1, types.DiskOrder("")
	single := order == "do" || order == "po" || ext == ".do" || ext == ".po"
	for w := 1; w >= 0; w-- {
		o, e := vs_orderNames21[w], "."+string(vs_orderNames21[w])
		if order != o && !(order == "auto" && (ext == e || ext == ".dsk" || ext == "")) {
			continue
		}
		for i := n - 1; i >= 0; i-- {
			f := mine[i]
			if system != "auto" && system != f.name {
				continue
			}
			st := f.st()
			rec := st.isDO
			if w == 1 {
				rec = st.isPO
			}
			if st.opens && (rec || single && system != "auto") {
				which, want = i, o
			}
		}
	}
	return which, want
}

// vs_system is a system's name: auto, one of three, or any other.
func vs_system(k int) string {
	known := [4]string{"auto", "dos3", "nakedos", "prodos"}
	if k < 4 {
		return known[k]
	}
	n := verifrt.Name("other system", func(r *verifrt.Rand) string { return r.PickStr("cpm", "", "Auto", "prodo", "prodos2") })
	for _, s := range known {
		verifrt.Assume(n != s)
	}
	return n
}

// vs_order is an order's name: auto, DOS, ProDOS, or any other.
func vs_order(k int) types.DiskOrder {
	known := [3]string{"auto", "do", "po"}
	if k < 3 {
		return types.DiskOrder(known[k])
	}
	n := verifrt.Name("other order", func(r *verifrt.Rand) string { return r.PickStr("raw", "", "x", "PO", "dos") })
	for _, s := range known {
		verifrt.Assume(n != s)
	}
	return types.DiskOrder(n)
}

// Images of every other size.
func VH_C21_Device() {
	n := verifrt.IntGen("size", 0, 1<<33, func(r *verifrt.Rand) int {
		if r.Chance(200) {
			return r.PickInt(65536*512, 65536*512+512, 65536*512+1, 65535*512, 65537*512)
		}
		return r.PickInt(0, 1, 511, 512, 513, 1024, 116480, 143359, 143361, 143872, 143360-512, 819200, r.Intn(300000), 512*r.Intn(2000))
	})
	verifrt.Assume(n != 143360)
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	system := vs_system(verifrt.Choose("system", 5))
	order := vs_order(verifrt.Choose("order", 4))
	name := verifrt.Name("name", vs_genName)
	ext := vs_extCase(name, verifrt.Choose("extension", 6))
	opens := verifrt.Bool("opens")
	vs_setSys(0, &vs_sysState{opens: true})
	vs_setSys(2, &vs_sysState{do: orig, po: orig, opens: opens, isDO: verifrt.Bool("recognises"), isPO: verifrt.Bool("recognises too")})
	var fs []types.OperatorFactory
	present := verifrt.Choose("systems", 4)
	if present != 1 {
		fs = append(fs, vs_sys{0, "dos3", "do"})
	}
	if present >= 2 {
		fs = append(fs, vs_sys{2, "prodos", "po"})
	}
	if present == 3 {
		fs = append(fs, vs_sys{0, "dos3", "do"})
	}
	op, got, err := OpenImage(img, name, order, system, fs, 0)
	verifrt.AssertEq("the image stays as it was", img, orig)
	ok := ext == ".hdv" && n != 116480 && n%512 == 0 && n <= 65536*512 && (order == "auto" || order == "po") && (system == "auto" || system == "prodos") && present >= 2 && opens
	verifrt.Assert("opened exactly when it is a ProDOS device image", (err == nil) == ok)
	if err != nil {
		verifrt.Assert("nothing is returned with an error", op == nil && got == "")
		verifrt.Cover("refused")
		return
	}
	id, is := op.(vs_sysOp)
	verifrt.Assert("as ProDOS", is && id == 2 && got == "po")
	verifrt.Cover("opened")
}

// The order a file name stands for.
func VH_C21_OrderFromFilename() {
	name := verifrt.Name("name", vs_genName)
	def := vs_order(verifrt.Choose("default", 4))
	want := def
	switch vs_extCase(name, verifrt.Choose("extension", 6)) {
	case ".do", ".dsk":
		want = "do"
	case ".po":
		want = "po"
	}
	verifrt.Assert("the order the extension stands for", OrderFromFilename(name, def) == want)
	verifrt.Cover("name")
}
