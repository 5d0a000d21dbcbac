package dupi

import (
	"bytes"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// VerifLoadBig: P14 for files of the sizes of blocks and buffers, with two
// arbitrary bytes at the ends of the range.
func VerifLoadBig() {
	sizes := []int{511, 512, 513, 4096, 4097, 32768, 32769, 65535, 65536, 70001, 1 << 20}
	n := sizes[vx.Choose("size", vx.Param("sizes", len(sizes)))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	ends := []int{0, 1, 510, 511, 512, 4095, 4096, n/2 + 1, n - 512, n - 1, n}
	s := ends[vx.Choose("start", len(ends))]
	e := ends[vx.Choose("end", len(ends))]
	if s < 0 || e <= s || e > n {
		vx.Done()
	}
	d[s], d[e-1] = vx.U8("first"), vx.U8("last")
	p := filepath.Join(vx.TempDir(), "doc")
	vx.WriteFile(p, d)
	doc := &Doc{Path: p, Start: uint32(s), End: uint32(e)}
	whole := false
	if e == n && s == 0 && vx.Bool("whole") {
		doc.End = 0
		whole = true
	}
	short := !whole && vx.Bool("short")
	if short {
		// the file lost its last bytes
		vx.WriteFile(p, d[:e-1-vx.Choose("lost", 2)*(e-1-s)])
	}
	err := doc.Load()
	if short {
		vx.Assert(err != nil, "a file shorter than the range is an error")
		return
	}
	vx.Assert(err == nil, "a range within the file loads")
	vx.Assert(doc.Start == uint32(s) && doc.End == uint32(e), "the range is kept")
	vx.Assert(len(doc.Dat) == e-s, "exactly the range is read")
	vx.Assert(bytes.Equal(doc.Dat, d[s:e]), "exactly the bytes of the range are read")
	vx.Reach("range")
}
