package dmd

import (
	"github.com/go-air/dupi/internal/vx"
)

// VerifDmdMany: P06 for tables that are flushed with many records at once; the
// values of one record are arbitrary.
func VerifDmdMany() {
	root := vx.TempDir()
	n := vx.Param("n", 3000)
	rates := []int{1, 7, 64, 1000, 1024, 4096, 16384}
	fr := rates[vx.Choose("fr", len(rates))]
	odd := []int{0, 1, 62, 63, 64, 511, 512, 998, 1000, 1023, 1024, 2047, n - 1}
	at := odd[vx.Choose("at", len(odd))] % n
	a, b, c := vx.U32("a"), vx.U32("b"), vx.U32("c")
	rec := func(i int) (uint32, uint32, uint32) {
		if i == at {
			return a, b, c
		}
		return uint32(i) * 0x9e3779b1, uint32(i) << 7, ^uint32(i)
	}
	ad, err := NewAdder(root, fr)
	vx.Assert(err == nil, "create")
	split := vx.Param("split", 0)
	for i := 0; i < n; i++ {
		if split > 0 && i%split == split-1 {
			vx.Assert(ad.Close() == nil, "close")
			ad, err = NewAdder(root, fr)
			vx.Assert(err == nil && ad.Last() == uint32(i), "reopen")
		}
		x, y, z := rec(i)
		id, err := ad.Add(x, y, z)
		vx.Assert(err == nil && id == uint32(i)+1 && ad.Last() == id, "ids are consecutive from 1")
	}
	vx.Assert(ad.Close() == nil, "close")
	t, err := New(root)
	vx.Assert(err == nil, "open")
	nd, err := t.NumDocs()
	vx.Assert(err == nil && nd == uint64(n), "NumDocs is the number of added records")
	for i := 0; i < n; i++ {
		x, y, z := rec(i)
		u, v, w, err := t.Lookup(uint32(i) + 1)
		vx.Assert(err == nil && u == x && v == y && w == z, "lookup returns the recorded values")
	}
	_, _, _, err = t.Lookup(uint32(n) + 1)
	vx.Assert(err != nil, "an id beyond the last is an error")
	vx.Assert(t.Close() == nil, "close reader")
	vx.Reach("checked")
}
