package dupi

import (
	"io"
	"math"

	"github.com/go-air/dupi/internal/vx"
)

// VerifEnum: P10, unlimited enumeration.
func VerifEnum() {
	c := newCorpus()
	x := verifOpen(verifBuild(c))
	want := map[uint32]int{}
	for _, f := range c.fingerprints() {
		if n := len(c.list(f)); n > 1 {
			want[f] = n
		}
	}
	batch := vx.InRange("batch", 1, vx.Param("batch", 3))
	q := x.StartQuery(QueryMaxBlot)
	last := 1 << 30
	total := len(want)
	for calls := 0; ; calls++ {
		if calls > total {
			vx.Fail("enumeration ends")
			return
		}
		dst := make([]Blot, batch)
		n, err := q.Next(dst)
		if err == io.EOF {
			vx.Assert(n == 0, "no results with the end")
			break
		}
		vx.Assert(err == nil, "enumerating succeeds")
		vx.Assert(n > 0 && n <= batch, "at least one result, at most as many as asked for")
		if err != nil || n <= 0 || n > batch {
			return
		}
		for i := 0; i < n; i++ {
			b := &dst[i]
			k := want[b.Blot]
			vx.Assert(k > 0, "only fingerprints shared by at least two documents, once each")
			delete(want, b.Blot)
			vx.Assert(len(b.Docs) <= last, "most frequent first")
			last = len(b.Docs)
			verifCheckList(c.list(b.Blot), b.Docs, "enumeration")
		}
	}
	vx.Assert(len(want) == 0, "every fingerprint shared by at least two documents is yielded")
	for i := 0; i < 2; i++ {
		n, err := q.Next(make([]Blot, batch))
		vx.Assert(n == 0 && err == io.EOF, "the end is reported again")
	}
	if total > 1 {
		vx.Reach("several")
	}
	// a second query starts afresh
	n, err := x.StartQuery(QueryMaxBlot).Next(make([]Blot, 1))
	if total > 0 {
		vx.Assert(n == 1 && err == nil, "a second query starts at the beginning")
	}
}

// VerifBuffers: P11, enumeration and lookup with bounded buffers.
func VerifBuffers() {
	c := newCorpus()
	x := verifOpen(verifBuild(c))
	fps := c.fingerprints()
	got := map[uint32][]Doc{}
	batch := vx.InRange("batch", 1, vx.Param("batch", 2))
	size := 2 + vx.Choose("cap", vx.Param("caps", 2))
	mk := func(n int) []Doc {
		// a buffer that held another document
		ds := make([]Doc, n)
		for i := range ds {
			ds[i] = Doc{Path: "/other", Start: 7, End: 9, Dat: []byte("zz")}
		}
		return ds[:0]
	}
	dst := make([]Blot, batch)
	for i := range dst {
		dst[i].Docs = mk(size)
	}
	q := x.StartQuery(QueryMaxBlot)
	limit := 2
	for _, f := range fps {
		limit += len(c.list(f))
	}
	for calls := 0; ; calls++ {
		if calls > limit {
			vx.Fail("enumeration ends")
			return
		}
		n, err := q.Next(dst)
		if err == io.EOF {
			vx.Assert(n == 0, "no results with the end")
			break
		}
		vx.Assert(err == nil, "enumerating succeeds")
		vx.Assert(n > 0 && n <= batch, "at least one result, at most as many as asked for")
		if err != nil || n <= 0 || n > batch {
			return
		}
		for i := 0; i < n; i++ {
			b := &dst[i]
			vx.Assert(len(b.Docs) <= size && cap(b.Docs) == size, "no more documents than fit")
			for j := range b.Docs {
				vx.Assert(b.Docs[j].Dat == nil, "an entry keeps nothing of the buffer's previous document")
			}
			got[b.Blot] = append(got[b.Blot], b.Docs...)
		}
		for i := range dst {
			// the caller reads the documents, then reuses the buffers
			for j := range dst[i].Docs {
				dst[i].Docs[j].Dat = []byte("loaded")
			}
			dst[i].Docs = dst[i].Docs[:0]
		}
	}
	for _, f := range fps {
		want := c.list(f)
		if len(want) > 1 {
			verifCheckList(want, got[f], "paged enumeration")
			delete(got, f)
		}
		if len(want) > size {
			vx.Reach("several pages")
		}
	}
	for f, ds := range got {
		// a fingerprint of a single document need not be yielded
		verifCheckList(c.list(f), ds, "paged enumeration")
	}
	for _, f := range fps {
		want := c.list(f)
		for n := 1; n <= len(want)+1; n++ {
			b := Blot{Blot: f, Docs: mk(n)}
			err := x.StartQuery(QueryMaxBlot).Get(&b)
			vx.Assert(err == nil || err == io.EOF, "looking up succeeds")
			w := want
			if len(w) > n {
				w = w[:n]
			}
			verifCheckList(w, b.Docs, "bounded lookup")
			for j := range b.Docs {
				vx.Assert(b.Docs[j].Dat == nil, "an entry keeps nothing of the buffer's previous document")
			}
		}
	}
	vx.Reach("checked")
}

// VerifStats: P18.
func VerifStats() {
	c := newCorpus()
	x := verifOpen(verifBuild(c))
	posts := 0
	var counts []float64
	for _, f := range c.fingerprints() {
		posts += len(c.list(f))
		counts = append(counts, float64(len(c.list(f))))
	}
	st, err := x.Stats()
	vx.Assert(err == nil, "statistics succeed")
	vx.Assert(st.NumDocs == uint64(len(c.docs)), "as many documents as were added")
	vx.Assert(st.NumPosts == uint64(posts), "as many posts as pairs of document and fingerprint")
	vx.Assert(st.NumBlots == uint64(c.nshards)*65536, "65536 blots per shard")
	n := float64(c.nshards) * 65536
	mean := float64(posts) / n
	sos := (n - float64(len(counts))) * mean * mean
	for _, k := range counts {
		sos += (k - mean) * (k - mean)
	}
	sigma := math.Sqrt(sos / n)
	vx.Assert(math.Abs(st.BlotMean-mean) <= 1e-9*mean, "the mean is the quotient of posts and blots")
	vx.Assert(math.Abs(st.BlotSigma-sigma) <= 1e-6*sigma, "the deviation is that of the documents per blot")
	vx.Reach("checked")
}
