package shard

import (
	"io"
	"os"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// VerifPoster: P04 for one slot, around the block boundary.
// A run of "pre" posts one apart follows a first id of any value and precedes
// posts with any gaps, so that the last block is cut at every offset.
func VerifPoster() {
	dir := vx.TempDir()
	iix, err := os.Create(filepath.Join(dir, "iix"))
	vx.Assert(err == nil, "create a file")
	d, err := os.Create(filepath.Join(dir, "posts"))
	vx.Assert(err == nil, "create a file")
	p := &poster{}
	vx.Assert(p.initCreate(iix, 7) == nil, "a new slot")
	pre := vx.Param("pre", 0)
	if w := vx.Param("prewin", 0); w > 0 {
		pre += vx.Choose("pre", w)
	}
	n := vx.Param("n", 3)
	cur := vx.U32("first")
	vx.Assume(uint64(cur)+uint64(pre) <= 0xffffffff)
	ids := make([]uint32, 0, pre+n+1)
	post := func(v uint32) {
		vx.Assert(p.AddPost(v, d) == nil, "posting succeeds")
		if len(ids) == 0 || ids[len(ids)-1] != v {
			ids = append(ids, v)
		}
	}
	post(cur)
	for i := 0; i < pre; i++ {
		cur++
		post(cur)
	}
	for i := 0; i < n; i++ {
		gap := vx.U32("gap")
		vx.Assume(uint64(cur)+uint64(gap) <= 0xffffffff)
		if vx.Bool("again") {
			gap = 0
		}
		cur += gap
		post(cur)
	}
	vx.Assert(p.flushTo(d) == nil, "flushing succeeds")
	vx.Assert(p.total == uint32(len(ids)), "the count is the number of distinct ids")
	r := newPosts(p.head)
	first := uint32(0)
	for i, want := range ids {
		got, err := r.next(d)
		vx.Assert(err == nil, "the list is readable")
		if i == 0 {
			first = got
			vx.Assert(got == want, "the list starts with the first id")
		}
		vx.Assert(got-first == want-ids[0], "the list has the posted ids in order")
	}
	for i := 0; i < 2; i++ {
		_, err := r.next(d)
		vx.Assert(err == io.EOF, "the list ends after the last id")
	}
	if len(ids) > 500 {
		vx.Reach("blocks")
	}
}
