package shard

import (
	"io"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
	"github.com/go-air/dupi/post"
)

type verifSlots struct {
	slot [2]uint16
	ids  [2][]uint32
	cur  uint32
}

// verifPosts sends n posts of any document ids to one of two slots.
func (s *verifSlots) send(x *Indexer, n, pre int) {
	var ps []post.T
	add := func(which int) {
		hi := vx.U16("hi") // the upper half of a fingerprint does not matter
		ps = append(ps, post.Make(s.cur, uint32(hi)<<16|uint32(s.slot[which])))
		l := s.ids[which]
		if len(l) == 0 || l[len(l)-1] != s.cur {
			s.ids[which] = append(l, s.cur)
		}
	}
	for i := 0; i < pre; i++ {
		s.cur++
		add(0)
	}
	for i := 0; i < n; i++ {
		gap := vx.U32("gap")
		vx.Assume(gap < uint32(vx.Param("maxgap", 0x4000)))
		vx.Assume(uint64(s.cur)+uint64(gap) <= 0xffffffff)
		s.cur += gap
		add(vx.Choose("which", 2))
	}
	c := x.PostChan()
	for len(ps) > 0 {
		k := 2
		if k > len(ps) {
			k = len(ps)
		}
		c <- ps[:k]
		<-c
		ps = ps[k:]
	}
	close(c)
}

func (s *verifSlots) check(path string) {
	x := &Index{}
	vx.Assert(x.Init(path) == nil, "a closed shard opens")
	for which, slot := range s.slot {
		vx.Assert(x.Count(uint32(slot)) == uint32(len(s.ids[which])), "the count is the number of distinct ids")
		r := x.ReadStateFor(slot)
		vx.Assert(r.Total == uint32(len(s.ids[which])), "the total is the number of distinct ids")
		for _, want := range s.ids[which] {
			got, err := r.Next()
			vx.Assert(err == nil, "the list is readable")
			vx.Assert(got == want, "the list has the posted ids in order")
		}
		_, err := r.Next()
		vx.Assert(err == io.EOF, "the list ends after the last id")
	}
	vx.Assert(x.NumPosts() == uint64(len(s.ids[0])+len(s.ids[1])), "all other slots are empty")
	for _, e := range []uint16{s.slot[0] + 1, s.slot[1] ^ 0x100} {
		if e == s.slot[0] || e == s.slot[1] {
			continue
		}
		_, err := x.ReadStateFor(e).Next()
		vx.Assert(err == io.EOF && x.Count(uint32(e)) == 0, "a slot without posts is empty")
	}
	// enumeration starts with the fullest slot
	a, b := len(s.ids[0]), len(s.ids[1])
	if a < b {
		a, b = b, a
	}
	r0, r1 := x.ReadStateAt(0), x.ReadStateAt(1)
	vx.Assert(int(r0.Total) == a && int(r1.Total) == b, "slots are enumerated by decreasing count")
	if a != b {
		k := 0
		if len(s.ids[1]) == a {
			k = 1
		}
		vx.Assert(r0.Blot == s.slot[k], "the fullest slot comes first")
	}
	vx.Assert(x.Close() == nil, "close")
}

// VerifShard: P04 for a whole shard over several sessions.
func VerifShard() {
	path := filepath.Join(vx.TempDir(), "shard")
	s := &verifSlots{}
	switch vx.Param("slots", 0) {
	case 0:
		s.slot = [2]uint16{0, 0xffff}
	case 1:
		s.slot = [2]uint16{0x0100, 0x0001}
	case 2:
		s.slot = [2]uint16{0x7fff, 0x8000}
	}
	n := vx.Param("n", 2)
	sess := vx.Param("sessions", 1)
	s.cur = uint32(vx.Param("start", 0))
	for i := 0; i < sess; i++ {
		x := &Indexer{}
		if i == 0 {
			vx.Assert(x.InitCreate(3, path, 16) == nil, "create")
		} else {
			vx.Assert(x.InitAppend(3, path, 16) == nil, "append")
		}
		done := make(chan bool)
		go func() { x.Serve(); close(done) }()
		s.send(x, n, vx.Param("pre", 0))
		<-done
		vx.Assert(x.Close() == nil, "close")
	}
	s.check(path)
	vx.Reach("checked")
}
