package prodos

import (
	"github.com/zellyn/diskii/types"
	"github.com/zellyn/diskii/verifrt"
)

func vs_le(b []byte) int { return int(b[0]) | int(b[1])<<8 }

// vs_dir is a directory as it is on the device.
type vs_dir struct {
	blocks  []int    // where it is
	entries [][]byte // its 39-byte entries, used or not
	path    string
}

// vs_readDir follows a directory's chain of blocks from its key block.
func vs_readDir(dev []byte, key int) (d vs_dir, ok bool) {
	been := map[int]bool{}
	for b := key; b != 0; b = vs_le(dev[b*512+2:]) {
		if been[b] || (b+1)*512 > len(dev) {
			return d, false
		}
		been[b] = true
		d.blocks = append(d.blocks, b)
		for k := 0; k < 13; k++ {
			if b != key || k > 0 { // the first entry of the key block is the header
				d.entries = append(d.entries, dev[b*512+4+39*k:b*512+4+39*k+39])
			}
		}
		if b == key && key == 0 {
			break
		}
	}
	return d, true
}

func vs_entryName(e []byte) string { return string(e[1 : 1+e[0]&15]) }

// vs_tree reads all directories of a volume. Bad: it has no listing, because a
// chain does not end or leaves the device, or an entry leads to a directory
// that another entry has led to. Good: it is a proper volume, with every block
// in one directory only and headers that agree with the entries.
func vs_tree(dev []byte) (dirs []vs_dir, good, bad bool) {
	if len(dev) < 3*512 {
		return nil, false, true
	}
	root, ok := vs_readDir(dev, 2)
	if !ok {
		return nil, false, true
	}
	good = true
	dirs = []vs_dir{root}
	owner := map[int]int{}
	keys := map[int]bool{}
	paths := map[string]bool{}
	for _, b := range root.blocks {
		owner[b] = 0
	}
	for i := 0; i < len(dirs); i++ {
		for _, e := range dirs[i].entries {
			if e[0]>>4 != 0xd {
				continue
			}
			key := vs_le(e[17:])
			if key == 0 {
				good = false
				return dirs, good, keys[0]
			}
			if keys[key] {
				return nil, false, true
			}
			keys[key] = true
			d, ok := vs_readDir(dev, key)
			if !ok {
				return nil, false, true
			}
			hdr := dev[key*512+4 : key*512+43]
			d.path = vs_entryName(hdr)
			if i > 0 {
				d.path = dirs[i].path + "/" + d.path
			}
			if paths[d.path] || vs_entryName(hdr) != vs_entryName(e) || e[0]&15 == 0 {
				good = false
			}
			paths[d.path] = true
			if o, ok := owner[vs_le(hdr[35:])]; !ok || o != i {
				good = false
			}
			for _, b := range d.blocks {
				if _, dup := owner[b]; dup {
					good = false
				}
				owner[b] = len(dirs)
			}
			dirs = append(dirs, d)
		}
	}
	return dirs, good, false
}

func vs_checkListing(descs []types.Descriptor, d vs_dir) {
	k := 0
	for _, e := range d.entries {
		if e[0]>>4 == 0 {
			continue
		}
		verifrt.Assert("every entry is listed", k < len(descs))
		g := descs[k]
		k++
		verifrt.Assert("name", g.Name == vs_entryName(e))
		verifrt.Assert("type", int(g.Type) == int(e[16]))
		verifrt.Assert("blocks", g.Blocks == vs_le(e[19:]))
		verifrt.Assert("length", g.Length == vs_le(e[21:])|int(e[23])<<16)
	}
	verifrt.Assert("nothing else is listed", k == len(descs))
}

// vs_genVolume makes a volume with directories, sometimes damaged.
func vs_genVolume(r *verifrt.Rand) []byte {
	n := r.PickInt(280, 280, 280, 400, 64, 1600)
	if r.Chance(40) {
		n = 4200
	}
	dev := make([]byte, n*512)
	if r.Bool() {
		for k := 0; k < n; k++ {
			dev[k*512+r.Intn(512)] = r.Byte()
		}
	}
	free := []int{}
	for b := 3; b < n; b++ {
		if b != 6 {
			free = append(free, b)
		}
	}
	for i := 0; i < len(free) && i < 200; i++ {
		j := i + r.Intn(len(free)-i)
		free[i], free[j] = free[j], free[i]
	}
	put := func(b []byte, v int) { b[0], b[1] = byte(v), byte(v>>8) }
	names := map[string]bool{}
	genName := func(e []byte, typ byte, prefix string, dir bool) string {
		for {
			l := r.PickInt(1, 1, 2, 5, 14, 15)
			for i := 1; i <= 15; i++ {
				e[i] = 0
				if i <= l {
					e[i] = r.Pick('A', 'B', 'Z', '0', '.')
				} else if r.Chance(3) {
					e[i] = r.Byte()
				}
			}
			e[0] = typ<<4 | byte(l)
			p := prefix + vs_entryName(e)
			if dir && names[p] {
				continue
			}
			names[p] = true
			return p
		}
	}
	budget := r.PickInt(0, 1, 2, 5, 12)
	var mk func(key int, path string, depth int, first []byte)
	mk = func(key int, path string, depth int, hdr []byte) {
		nb := r.PickInt(1, 1, 2, 4)
		b := key
		prev := 0
		for k := 0; k < nb; k++ {
			blk := dev[b*512 : b*512+512]
			next := 0
			if k < nb-1 && len(free) > 30 {
				next = free[0]
				free = free[1:]
			} else {
				nb = k + 1
			}
			put(blk, prev)
			put(blk[2:], next)
			for s := 0; s < 13; s++ {
				e := blk[4+39*s : 4+39*s+39]
				if k == 0 && s == 0 {
					if depth > 0 {
						copy(e, hdr)
						continue
					}
					genName(e, 0xf, "!", false)
					put(e[35:], r.PickInt(6, 6, 6, r.Intn(n)))
					put(e[37:], n)
					continue
				}
				for i := range e {
					e[i] = 0
				}
				switch {
				case r.Chance(3):
					if r.Bool() {
						r.Fill(e)
						e[0] &= 15
					}
				case budget > 0 && r.Chance(6) && depth < 6 && len(free) > 30:
					budget--
					p := genName(e, 0xd, path, true)
					key2 := free[0]
					free = free[1:]
					e[16] = 15
					put(e[17:], key2)
					put(e[19:], 1+r.Intn(4))
					e[22] = byte(r.Intn(8))
					h := make([]byte, 39)
					copy(h, e[:16])
					h[0] = 0xe0 | e[0]&15
					h[16] = 0x75
					h[31], h[32] = 39, 13
					put(h[35:], r.PickInt(key, b))
					h[37], h[38] = byte(s+1), 39
					mk(key2, p+"/", depth+1, h)
				default:
					genName(e, r.Pick(1, 2, 3), path, false)
					e[16] = r.Byte()
					put(e[17:], r.Intn(n))
					put(e[19:], r.PickInt(r.Intn(300), r.Intn(65536)))
					e[21], e[22], e[23] = r.Byte(), r.Byte(), r.Pick(0, 0, 1, r.Byte())
					e[30] = r.Pick(0xe3, 0xc3, 0x21, 0x01, r.Byte())
				}
			}
			prev = b
			if next == 0 {
				break
			}
			b = next
		}
	}
	mk(2, "", 0, nil)
	return vs_damage(r, dev)
}

func vs_damage(r *verifrt.Rand, dev []byte) []byte {
	if r.Chance(2) {
		return dev
	}
	n := len(dev) / 512
	var bs []int
	if dirs, _, bad := vs_tree(dev); !bad {
		for _, d := range dirs {
			bs = append(bs, d.blocks...)
		}
	}
	if len(bs) == 0 {
		bs = []int{2}
	}
	any := func() int { return r.PickInt(0, 1, 2, bs[r.Intn(len(bs))], bs[r.Intn(len(bs))], n-1, n, r.Intn(n), 65535) }
	put := func(b []byte, v int) { b[0], b[1] = byte(v), byte(v>>8) }
	blk := dev[bs[r.Intn(len(bs))]*512:]
	e := blk[4+39*r.Intn(13):]
	switch r.Intn(8) {
	case 0:
		put(blk[2:], any())
	case 1:
		put(e[17:], any())
	case 2:
		put(blk[4+35:], any())
	case 3:
		e[0] = r.Byte()
	case 4:
		dev = dev[:r.PickInt(0, 511, 1024, 1535, 1536, r.Intn(len(dev)+1), bs[r.Intn(len(bs))]*512+r.PickInt(0, 511, 512))]
	case 5:
		e[0] = 0xd0 | e[0]&15
		put(e[17:], any())
	case 6:
		blk[r.Intn(512)] = r.Byte()
	case 7:
		put(blk[2:], any())
		put(dev[bs[r.Intn(len(bs))]*512+2:], any())
	}
	return dev
}

// Cataloguing any device ends, with the listing or an error, and changes nothing.
func VX_C15_Catalog() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	dev := vs_genVolume(r)
	orig := verifrt.Clone(dev)
	dirs, good, bad := vs_tree(orig)
	if len(dev) >= 4096*512 && !bad && (vs_le(dev[2*512+4+35:])+1)*512 > len(dev) {
		good = false // no bitmap
	}
	match := OperatorFactory{}.SeemsToMatch(dev, 0)
	op, err := OperatorFactory{}.Operator(dev, 0)
	verifrt.Assert("operator", err == nil)
	descs, err := op.Catalog("")
	verifrt.AssertEq("reading changes nothing", dev, orig)
	verifrt.Assert("taken for ProDOS exactly when it can be listed", match == (err == nil))
	verifrt.Assert("the device's bytes", len(op.GetBytes()) == len(orig))
	if bad {
		verifrt.Assert("a broken volume is an error", err != nil)
		verifrt.Cover("broken volume")
		return
	}
	if good {
		verifrt.Assert("a proper volume can be listed", err == nil)
	}
	if err != nil {
		return
	}
	vs_checkListing(descs, dirs[0])
	if !good {
		return
	}
	verifrt.Cover("proper volume")
	for _, d := range dirs[1:] {
		descs, err := op.Catalog(d.path)
		verifrt.Assert("a subdirectory can be listed by its path", err == nil)
		vs_checkListing(descs, d)
		verifrt.Cover("subdirectory")
	}
	for _, p := range []string{"/", "NO.SUCH", "A/B/C/D/E/F/G"} {
		known := false
		for _, d := range dirs {
			known = known || d.path == p
		}
		if !known {
			_, err := op.Catalog(p)
			verifrt.Assert("no such subdirectory", err != nil)
		}
	}
}

// What is shown of one entry, for every entry.
func VH_C15_Entry() {
	e := verifrt.Bytes("entry", 39)
	orig := verifrt.Clone(e)
	fd := FileDescriptor{}
	fd.fromBytes(e)
	n := int(orig[0] % 16)
	name := fd.Name()
	verifrt.Assert("name length", len(name) == n)
	verifrt.AssertForall("name", 0, n, func(i int) bool { return name[i] == orig[1+i] })
	verifrt.Assert("storage type", fd.Type() == orig[0]/16)
	d := fd.descriptor()
	verifrt.Assert("type", int(d.Type) == int(orig[16]))
	verifrt.Assert("blocks", d.Blocks == int(orig[19])+256*int(orig[20]))
	verifrt.Assert("length", d.Length == int(orig[21])+256*int(orig[22])+65536*int(orig[23]))
	verifrt.Cover("entry")
}
