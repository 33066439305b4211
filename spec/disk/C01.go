package disk

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

// Reordering with any order slice: accepted exactly when the image is floppy
// sized and the order is a permutation of 0..15; then sector s of every track
// moves to sector order[s] of the same track.
func VH_C01_SwizzleAnyOrder() {
	img := verifrt.Bytes("img", FloppyDiskBytes)
	orig := verifrt.Clone(img)
	var all [18]int
	vs_orderInput(&all)
	m := verifrt.IntGen("m", 0, 18, func(r *verifrt.Rand) int {
		if r.Chance(3) {
			return r.Intn(19)
		}
		return 16
	})
	order := all[:m]
	ok := m == 16
	if ok {
		for i := 0; i < 16; i++ {
			if order[i] < 0 || order[i] > 15 {
				ok = false
			}
			for j := 0; j < i; j++ {
				if order[i] == order[j] {
					ok = false
				}
			}
		}
	}
	got, err := Swizzle(img, order)
	verifrt.Assert("accepted exactly when the order is a permutation of 0..15", (err == nil) == ok)
	verifrt.AssertEq("input image unchanged", img, orig)
	if err != nil {
		verifrt.Cover("bad order refused")
		verifrt.Assert("no image on failure", got == nil)
		return
	}
	verifrt.Cover("reordered")
	verifrt.Assert("result is a floppy image", len(got) == FloppyDiskBytes)
	var dest [16]int
	for s := 0; s < 16; s++ {
		dest[s] = int(byte(order[s]))
		verifrt.Assert("destination", dest[s] == order[s])
		for j := 0; j < s; j++ {
			verifrt.Lemma("destinations differ", dest[s] != dest[j])
		}
	}
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			from := t*4096 + s*256
			to := t*4096 + dest[s]*256
			verifrt.AssertForall("sector lands at its place", 0, 256, func(k int) bool { return got[to+k] == orig[from+k] })
		}
	}
}

func vs_orderInput(all *[18]int) {
	verifrt.FillGen("order", all, func(r *verifrt.Rand) []uint64 {
		v := make([]uint64, 18)
		for i := range v {
			v[i] = uint64(i)
		}
		for i := 15; i > 0; i-- {
			j := r.Intn(i + 1)
			v[i], v[j] = v[j], v[i]
		}
		if r.Chance(2) {
			for k := 0; k < 1+r.Intn(2); k++ {
				i := r.Intn(18)
				switch r.Intn(4) {
				case 0:
					v[i] = v[r.Intn(18)]
				case 1:
					v[i] = 16
				case 2:
					v[i] = ^uint64(0)
				default:
					v[i] = r.U64()
				}
			}
		}
		return v
	})
}

// Images of any other size are refused, whatever the order.
func VH_C01_SwizzleAnySize() {
	n := vs_len("n")
	verifrt.Assume(n != FloppyDiskBytes)
	img := verifrt.Bytes("img", n)
	orig := verifrt.Clone(img)
	var all [18]int
	vs_orderInput(&all)
	got, err := Swizzle(img, all[:16])
	verifrt.Assert("refused", err != nil && got == nil)
	verifrt.AssertEq("input image unchanged", img, orig)
}

// vs_physical is the published interleave: the physical sector that holds a
// logical sector.
func vs_physical(order string, logical int) int {
	if order == "do" {
		return [16]int{0, 13, 11, 9, 7, 5, 3, 1, 14, 12, 10, 8, 6, 4, 2, 15}[logical]
	}
	if order == "po" {
		return [16]int{0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15}[logical]
	}
	return logical
}

// The tables for the named orders.
func VH_C01_Tables() {
	verifrt.Assert("orders have the documented names", types.DiskOrderDO == "do" && types.DiskOrderPO == "po" && types.DiskOrderRaw == "raw")
	for _, o := range []types.DiskOrder{"do", "po", "raw"} {
		l2p, p2l := LogicalToPhysicalByName[o], PhysicalToLogicalByName[o]
		verifrt.Assert("tables cover a track", len(l2p) == 16 && len(p2l) == 16)
		for s := 0; s < 16; s++ {
			verifrt.Assert("logical to physical as published", l2p[s] == vs_physical(string(o), s))
			verifrt.Assert("physical to logical inverts it", p2l[l2p[s]] == s)
		}
	}
}

// Converting between two named orders places every logical sector, and
// converting back restores the image.
func vs_convert(from, to string) {
	img := verifrt.Bytes("img", FloppyDiskBytes)
	phys, err := Swizzle(img, LogicalToPhysicalByName[types.DiskOrder(from)])
	verifrt.Assert("first step accepted", err == nil)
	out, err := Swizzle(phys, PhysicalToLogicalByName[types.DiskOrder(to)])
	verifrt.Assert("second step accepted", err == nil)
	for t := 0; t < 35; t++ {
		for s := 0; s < 16; s++ {
			for d := 0; d < 16; d++ {
				if vs_physical(from, s) == vs_physical(to, d) {
					a, b := t*4096+s*256, t*4096+d*256
					verifrt.AssertEq("same physical sector", out[b:b+256], img[a:a+256])
				}
			}
		}
	}
	back, err := Swizzle(out, LogicalToPhysicalByName[types.DiskOrder(to)])
	verifrt.Assert("third step accepted", err == nil)
	again, err := Swizzle(back, PhysicalToLogicalByName[types.DiskOrder(from)])
	verifrt.Assert("fourth step accepted", err == nil)
	verifrt.AssertEq("there and back is the identity", again, img)
	verifrt.Cover("converted")
}

func VH_C01_DoPo()  { vs_convert("do", "po") }
func VH_C01_PoDo()  { vs_convert("po", "do") }
func VH_C01_DoRaw() { vs_convert("do", "raw") }
func VH_C01_PoRaw() { vs_convert("po", "raw") }
func VH_C01_RawDo() { vs_convert("raw", "do") }
func VH_C01_RawPo() { vs_convert("raw", "po") }
