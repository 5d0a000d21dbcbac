package dupi

import (
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// verifBuild indexes the corpus chosen by the job.
func verifBuild(c *vcorpus) (root string) {
	root = filepath.Join(vx.TempDir(), "idx")
	xr, err := IndexerFromConfig(c.config(root))
	vx.Assert(err == nil, "creating an index succeeds")
	nd, words := vx.Param("docs", 2), vx.Param("words", 2)
	reopen := vx.Param("sessions", 1)
	for i := 0; i < vx.Param("pre", 0); i++ {
		c.put(xr, c.fixed(i))
	}
	if vx.Param("mult", 0) > 0 {
		for i, ws := range c.series() {
			if reopen == 3 && i > 0 {
				vx.Assert(xr.Close() == nil, "closing succeeds")
				xr, err = OpenIndexer(root)
				vx.Assert(err == nil, "opening for appending succeeds")
			}
			c.put(xr, c.addWords("/s/"+verifItoa(i), ws, verifSep, "", uint32(i)))
		}
		nd = 0
	}
	for i := 0; i < nd; i++ {
		if i > 0 && (reopen == 2 && vx.Bool("reopen") || reopen == 3) {
			vx.Assert(xr.Close() == nil, "closing succeeds")
			xr, err = OpenIndexer(root)
			vx.Assert(err == nil, "opening for appending succeeds")
			vx.Reach("reopened")
		}
		start := uint32(0)
		if vx.Param("offset", 1) != 0 {
			start = vx.U32("start")
			vx.Assume(start < 0xffffff00)
		}
		path := []string{"/a/b", "rel/./doc", "/a/b", "/a", "/c"}[i%5]
		n := words
		if i == vx.Param("short", -1) {
			n = c.window()
		}
		if i == vx.Param("empty", -1) {
			n = 0
		}
		if i == vx.Param("bad", -1) {
			c.put(xr, c.addInvalid(path, n, start))
			continue
		}
		c.put(xr, c.add(path, n, start))
	}
	if reopen == 4 {
		// a session that adds nothing
		vx.Assert(xr.Close() == nil, "closing succeeds")
		xr, err = OpenIndexer(root)
		vx.Assert(err == nil, "opening for appending succeeds")
	}
	vx.Assert(xr.Close() == nil, "closing succeeds")
	return root
}

// series gives the words of up to "mult" documents: "nf" fingerprints
// (window 1) dealt round robin to the shards, each in as many documents as is
// chosen, in non-increasing numbers within a shard (they are interchangeable).
func (c *vcorpus) series() [][]vword {
	nf, mult := vx.Param("nf", 2), vx.Param("mult", 0)
	slots := []uint32{1, 0x100, 0xffff, 0, 0x8000, 7}
	docs := make([][]vword, mult)
	first := c.word()
	last := make([]int, c.nshards)
	for i := range last {
		last[i] = mult
	}
	for f := 0; f < nf; f++ {
		sh := f % c.nshards
		n := vx.InRange("mult", 0, last[sh])
		last[sh] = n
		up := vx.U32("up")
		vx.Assume(up < uint32(0x100000000/int64(c.space())))
		h := up*c.space() + slots[f/c.nshards]*uint32(c.nshards) + uint32(sh)
		w := vword{vx.HashWordOf("f"+verifItoa(f), h), h}
		for j := 0; j < n; j++ {
			k := j
			if f%2 == 1 {
				k = mult - 1 - j
			}
			docs[k] = append(docs[k], w)
		}
	}
	var out [][]vword
	for _, ws := range docs {
		out = append(out, append([]vword{first}, ws...))
	}
	return out
}

// fingerprints gives the distinct fingerprints of the corpus (case-split).
func (c *vcorpus) fingerprints() (out []uint32) {
	seen := map[uint32]bool{}
	for _, d := range c.docs {
		for i, f := range d.fps {
			f = uint32(vx.Conc(uint64(f)))
			d.fps[i] = f
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return
}

// VerifFound: P08, every document is listed under each of its fingerprints.
func VerifFound() {
	c := newCorpus()
	x := verifOpen(verifBuild(c))
	for _, f := range c.fingerprints() {
		got := verifGet(x, f)
		for _, d := range c.docs {
			if !d.has(f) {
				continue
			}
			n := 0
			for i := range got {
				if verifSameDoc(d, &got[i]) {
					n++
				}
			}
			vx.Assert(n >= 1, "a document is listed under each of its fingerprints, with its path and range")
			vx.Reach("found")
		}
		// the fingerprint as it is computed, not reduced
		if up := vx.U32("more"); vx.Bool("unreduced") {
			vx.Assume(up > 0 && up < uint32(0x100000000/int64(c.space())))
			vx.Assert(len(verifGet(x, up*c.space()+f)) == len(got), "an unreduced fingerprint finds the same documents")
			vx.Done()
		}
	}
	vx.Assert(x.Close() == nil, "closing a reader succeeds")
}

// VerifLists: P09, the lists hold nothing else, once, in order.
func VerifLists() {
	c := newCorpus()
	x := verifOpen(verifBuild(c))
	seen := map[uint32]bool{}
	for _, f := range c.fingerprints() {
		seen[f] = true
		want := c.list(f)
		verifCheckList(want, verifGet(x, f), "lookup")
		if len(want) > 1 {
			vx.Reach("shared")
		}
	}
	for _, a := range []int64{0, 1, 2, 3, 0x7fff, 0x8000, 0xfffe, 0xffff} {
		for i := 0; i < c.nshards; i++ {
			f := uint32(a)*uint32(c.nshards) + uint32(i)
			if !seen[f] {
				vx.Assert(len(verifGet(x, f)) == 0, "a fingerprint of no document has no documents")
			}
		}
	}
	for _, f := range []uint32{uint32(vx.Param("a", 0)), uint32(vx.Param("b", 1)), uint32(vx.Param("c", 2)), (uint32(vx.Param("b", 1)) + 1) % c.space()} {
		if !seen[f] {
			vx.Assert(len(verifGet(x, f)) == 0, "a fingerprint of no document has no documents")
		}
	}
	vx.Reach("checked")
}

// VerifSessions: P05, the split over sessions changes nothing.
func VerifSessions() {
	c := newCorpus()
	root := verifBuild(c)
	x := verifOpen(root)
	posts := uint64(0)
	shared := map[uint32]bool{}
	for _, f := range c.fingerprints() {
		want := c.list(f)
		posts += uint64(len(want))
		verifCheckList(want, verifGet(x, f), "lookup")
		if len(want) > 1 {
			shared[f] = true
		}
	}
	q := x.StartQuery(QueryMaxBlot)
	for n := len(shared); n > 0; n-- {
		b := []Blot{{}}
		k, err := q.Next(b)
		vx.Assert(err == nil && k == 1, "as many duplicated fingerprints as there are")
		vx.Assert(shared[b[0].Blot], "only duplicated fingerprints, once each")
		delete(shared, b[0].Blot)
		verifCheckList(c.list(b[0].Blot), b[0].Docs, "enumeration")
	}
	k, err := q.Next([]Blot{{}})
	vx.Assert(k == 0 && err != nil, "no other fingerprints")
	st, err := x.Stats()
	vx.Assert(err == nil, "statistics succeed")
	vx.Assert(st.NumDocs == uint64(len(c.docs)), "document ids count on")
	vx.Assert(st.NumPosts == posts, "as many posts as there are")
	vx.Assert(x.Close() == nil, "closing a reader succeeds")
	vx.Reach("checked")
}
