package dupi

import (
	"github.com/go-air/dupi/internal/vx"
)

// VerifAddress: P03 on an index with documents.
func VerifAddress() {
	c := newCorpus()
	x := verifOpen(verifBuild(c))
	n := uint32(c.nshards)
	fps := c.fingerprints()
	dup := map[uint32]bool{}
	for _, f := range fps {
		s, b := x.SplitBlot(f)
		vx.Assert(s < n && x.JoinBlot(s, b) == f, "joining the address of a fingerprint gives the fingerprint")
		want := c.list(f)
		verifCheckList(want, verifGet(x, f), "looking up")
		verifCheckList(want, verifGet(x, x.JoinBlot(s, b)), "looking up an address")
		if len(want) > 1 {
			dup[f] = true
		}
	}
	for _, f := range fps {
		for _, g := range []uint32{f ^ 1, (f + 1) % c.space(), f ^ 0x8000, (f + n) % c.space(), (f + 0x10000) % c.space(), (f + c.space() - 1) % c.space()} {
			verifCheckList(c.list(g), verifGet(x, g), "looking up another address")
		}
	}
	q := x.StartQuery(QueryMaxBlot)
	for n := len(dup); n > 0; n-- {
		b := []Blot{{}}
		k, err := q.Next(b)
		vx.Assert(err == nil && k == 1, "enumerating succeeds")
		vx.Assert(dup[b[0].Blot], "enumeration reports the joined fingerprint")
		delete(dup, b[0].Blot)
		verifCheckList(c.list(b[0].Blot), b[0].Docs, "enumeration")
		vx.Reach("enumerated")
	}
	// every fingerprint, every pair
	f := vx.U32("f")
	s, b := x.SplitBlot(f)
	vx.Assert(s < n, "the shard is in range")
	vx.Assert(x.JoinBlot(s, b) == f%c.space(), "joining a split gives the fingerprint in the space")
	s2, b2 := vx.U32("shard"), vx.U16("slot")
	vx.Assume(s2 < n)
	s3, b3 := x.SplitBlot(x.JoinBlot(s2, b2))
	vx.Assert(s3 == s2 && b3 == b2, "splitting is inverse to joining")
	vx.Assert(x.JoinBlot(s2, b2) < c.space(), "joined fingerprints lie in the space")
}
