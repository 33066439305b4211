package supermon

import (
	"github.com/zellyn/diskii/verifrt"
)

// vs_write puts data into the first free sectors in disk order and the map
// into its place.
func vs_write(img, m []byte, file byte, data []byte) {
	pages := make([]byte, (len(data)+255)/256*256)
	copy(pages, data)
	k := 0
out:
	for t := byte(0); t < 35; t++ {
		verifrt.Invariant(0 <= k && k < len(pages)/256)
		for s := byte(0); s < 16; s++ {
			verifrt.Invariant(0 <= k && k < len(pages)/256)
			p := 16*int(t) + int(s)
			if m[p] == 0xff {
				copy(img[256*p:256*p+256], pages[256*k:256*k+256])
				m[p] = file
				k++
				if 256*k == len(pages) {
					break out
				}
			}
		}
	}
	copy(img[vs_mapAt:vs_mapEnd], m)
}

// vs_owned counts the sectors of a file.
func vs_owned(m []byte, f byte) int {
	n := 0
	for t := byte(0); t < 35; t++ {
		for s := byte(0); s < 16; s++ {
			if m[16*int(t)+int(s)] == f {
				n++
			}
		}
	}
	return n
}

func vs_drop(m []byte, f byte) {
	for p := range m {
		if m[p] == f {
			m[p] = 0xff
		}
	}
}

func vs_free(m []byte) int {
	n := 0
	for p := range m {
		if m[p] == 0xff {
			n++
		}
	}
	return n
}

func VH_C08_Write() {
	verifrt.Cut("WriteFile")
	verifrt.Cut("FreeSectors")
	verifrt.Cut("SectorsForFile")
	verifrt.Cut("Delete")
	verifrt.Cut("vs_write")
	verifrt.Cut("vs_owned")
	verifrt.Cut("vs_drop")
	verifrt.Cut("vs_free")
	image, owners := verifrt.Bytes("image", 143360), verifrt.Bytes("map", 560)
	img, sm := verifrt.Clone(image), SectorMap(verifrt.Clone(owners))
	img2, m2 := verifrt.Clone(image), verifrt.Clone(owners)
	file := verifrt.Byte("file")
	n := verifrt.Int("n", 0, 200000)
	data := verifrt.Bytes("data", n)
	given := verifrt.Clone(data)
	over := verifrt.Bool("overwrite")
	had, free := vs_owned(m2, file), vs_free(m2)
	refuse := file == 0 || file >= 0xfe || n == 0 || (n+255)/256 > free+had || had > 0 && !over
	if refuse {
		existed, err := sm.WriteFile(img, file, data, over)
		verifrt.Assert("refused", err != nil)
		verifrt.Assert("tells whether the file existed", existed == (had > 0))
	} else {
		if had > 0 {
			vs_drop(m2, file)
		}
		vs_write(img2, m2, file, given)
		existed, err := sm.WriteFile(img, file, data, over)
		verifrt.Assert("not refused", err == nil)
		verifrt.Assert("tells whether the file existed", existed == (had > 0))
	}
	verifrt.AssertEq("contents untouched", data, given)
	verifrt.AssertEq("map", []byte(sm), m2)
	verifrt.AssertEq("image", img, img2)
}
