package dupi

import (
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// VerifSchedule: P12, every schedule of indexing.
func VerifSchedule() {
	vx.Atomic(1)
	c := newCorpus()
	root := filepath.Join(vx.TempDir(), "idx")
	xr, err := IndexerFromConfig(c.config(root))
	vx.Assert(err == nil, "creating an index succeeds")
	nd, words := vx.Param("docs", 2), vx.Param("words", 2)
	for i := 0; i < nd; i++ {
		n := words
		if i == vx.Param("empty", -1) {
			n = 0
		}
		c.add("/a/"+verifItoa(i), n, uint32(10*i))
	}
	fps := c.fingerprints()
	vx.Atomic(-1)
	for _, d := range c.docs {
		c.put(xr, d)
	}
	vx.Assert(xr.Close() == nil, "closing succeeds")
	vx.Atomic(1)
	x := verifOpen(root)
	for _, f := range fps {
		verifCheckList(c.list(f), verifGet(x, f), "lookup")
	}
	vx.Reach("closed")
}
