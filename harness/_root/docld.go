package dupi

import (
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// VerifLoad: P14 for every content and every range.
func VerifLoad() {
	n := vx.InRange("n", 0, vx.Param("n", 4))
	d := vx.Bytes("d", n)
	p := filepath.Join(vx.TempDir(), "doc")
	vx.WriteFile(p, d)
	doc := &Doc{Path: p, Start: vx.U32("start"), End: vx.U32("end")}
	vx.Assume(doc.Start <= doc.End)
	vx.Assume(doc.End-doc.Start <= uint32(vx.Param("max", 8)))
	if vx.Bool("missing") {
		doc.Path += "x"
		vx.Assert(doc.Load() != nil, "a missing file is an error")
		return
	}
	s, e := doc.Start, doc.End
	if vx.Bool("stale") {
		doc.Dat = []byte("other content")
	}
	err := doc.Load()
	if s == 0 && e == 0 {
		vx.Assert(err == nil, "a whole file loads")
		vx.Assert(doc.Start == 0 && doc.End == uint32(n), "the end is set to the size")
		vx.Assert(string(doc.Dat) == string(d), "the whole file is read")
		vx.Reach("whole")
		return
	}
	vx.Assert(doc.Start == s && doc.End == e && doc.Path == p, "the range is kept")
	if uint64(e) > uint64(n) && e > s {
		vx.Assert(err != nil, "a file shorter than the range is an error")
		vx.Reach("short")
		return
	}
	if e == s && uint64(e) > uint64(n) {
		return // nothing to read there
	}
	vx.Assert(err == nil, "a range within the file loads")
	vx.Assert(len(doc.Dat) == int(e-s), "exactly the range is read")
	vx.Assert(string(doc.Dat) == string(d[vx.ConcInt(int(s)):vx.ConcInt(int(e))]), "exactly the bytes of the range are read")
	vx.Reach("range")
}
