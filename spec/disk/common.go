package disk

import "github.com/zellyn/diskii/verifrt"

// vs_len draws an image length: any length is allowed; concrete runs prefer
// lengths around sector, block and image boundaries.
func vs_len(name string) int {
	return verifrt.IntGen(name, 0, 1<<40, func(r *verifrt.Rand) int {
		switch r.Intn(6) {
		case 0:
			return FloppyDiskBytes
		case 1:
			return r.Intn(64)
		case 2:
			return r.Intn(600)*256 + r.Intn(3)
		case 3:
			return r.Intn(4)*143360 + r.Intn(5000)
		case 4:
			return r.Intn(70)*512 + r.Intn(2)*511
		}
		return r.Intn(1 << 17)
	})
}
