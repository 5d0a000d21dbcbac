package dupi

import (
	"github.com/go-air/dupi/internal/vx"
)

// VerifSplitJoin: P03, the arithmetic for every shard count.
func VerifSplitJoin() {
	n := 0
	if vx.Param("big", 0) == 0 {
		n = vx.InRange("n", vx.Param("lo", 1), vx.Param("hi", 40))
	} else {
		n = []int{255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65534, 65535}[vx.Choose("big", 10)]
	}
	x := &Index{config: &Config{NumShards: n}}
	f := vx.U32("f")
	s, b := x.SplitBlot(f)
	vx.Assert(s < uint32(n), "the shard is in range")
	vx.Assert(x.JoinBlot(s, b) == f%(uint32(n)<<16), "joining a split gives the fingerprint in the space")
	s2, b2 := vx.U32("shard"), vx.U16("slot")
	vx.Assume(s2 < uint32(n))
	s3, b3 := x.SplitBlot(x.JoinBlot(s2, b2))
	vx.Assert(s3 == s2 && b3 == b2, "splitting is inverse to joining")
	vx.Reach("checked")
}
