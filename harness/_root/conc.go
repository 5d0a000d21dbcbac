package dupi

import (
	"bytes"
	"io"
	"sync"

	"github.com/go-air/dupi/internal/vx"
)

// verifWork is one user of an open index: it gives "" or what went wrong.
func verifWork(kind int, c *vcorpus, x *Index, root string, fps []uint32) string {
	same := func(want []*vdoc, got []Doc) bool {
		if len(want) != len(got) {
			return false
		}
		for i, d := range want {
			if !verifSameDoc(d, &got[i]) {
				return false
			}
		}
		return true
	}
	switch kind {
	case 0: // look up
		q := x.StartQuery(QueryMaxBlot)
		for _, f := range fps {
			b := Blot{Blot: f}
			if err := q.Get(&b); err != nil && err != io.EOF {
				return "looking up succeeds"
			}
			if !same(c.list(f), b.Docs) {
				return "looking up gives the documents of the fingerprint"
			}
		}
	case 1: // enumerate
		q := x.StartQuery(QueryMaxBlot)
		n := 0
		for _, f := range fps {
			if len(c.list(f)) > 1 {
				n++
			}
		}
		for {
			bs := make([]Blot, 2)
			k, err := q.Next(bs)
			if err == io.EOF {
				break
			}
			if err != nil || k == 0 {
				return "enumerating succeeds"
			}
			for i := 0; i < k; i++ {
				n--
				if !same(c.list(bs[i].Blot), bs[i].Docs) {
					return "enumerating gives the documents of each fingerprint"
				}
			}
		}
		if n != 0 {
			return "enumerating gives every duplicated fingerprint"
		}
	case 2: // count
		st, err := x.Stats()
		if err != nil || st.NumDocs != uint64(len(c.docs)) {
			return "statistics count the documents"
		}
	case 3: // locate
		for i, d := range c.docs {
			if len(d.fps) == 0 || i > 1 {
				continue
			}
			doc := Doc{Path: d.abs, Start: d.start, End: d.end(), Dat: d.txt}
			for j, f := range d.fps {
				b, e, err := x.FindBlot(f, &doc)
				if err != nil || b < d.start || e > d.end() {
					return "locating succeeds"
				}
				if got := x.BlotDoc(nil, &Doc{Start: b, End: e, Dat: d.txt[b-d.start : e-d.start]}); len(got) != 1 || got[0]%c.space() != f {
					return "locating gives a text of the fingerprint"
				}
				if all := x.BlotDoc(nil, &doc); len(all) != len(d.fps) || all[j]%c.space() != f {
					return "fingerprints of a document are its own"
				}
			}
			txt := d.txt[d.span[0][0]-d.start : d.span[0][1]-d.start]
			m, err := x.FindBlots(map[uint32][]byte{d.fps[0]: txt}, &doc)
			if err != nil || !bytes.Equal(m[d.fps[0]], txt) {
				return "matching a text succeeds"
			}
		}
	case 4: // another reader
		y, err := OpenIndex(root)
		if err != nil {
			return "another reader opens"
		}
		b := Blot{Blot: fps[0], Docs: make([]Doc, 0, 2)}
		err = y.StartQuery(QueryMaxBlot).Get(&b)
		want := c.list(fps[0])
		if len(want) > 2 {
			want = want[:2]
		}
		if err != nil && err != io.EOF || !same(want, b.Docs) {
			return "looking up in another reader gives the documents of the fingerprint"
		}
		if y.Close() != nil {
			return "closing another reader succeeds"
		}
	}
	return ""
}

// VerifTogether: P28, several goroutines use one open index.
func VerifTogether() {
	vx.Atomic(1)
	c := newCorpus()
	root := verifBuild(c)
	fps := c.fingerprints()
	if len(fps) == 0 {
		vx.Done()
	}
	x := verifOpen(root)
	nw := vx.Param("workers", 2)
	kinds := make([]int, nw)
	for i := range kinds {
		lo := 0
		if i > 0 {
			lo = kinds[i-1]
		}
		kinds[i] = vx.InRange("kind", lo, vx.Param("kinds", 5)-1)
	}
	vx.FilePoints()
	vx.Atomic(-1)
	wrong := make([]string, nw)
	var wg sync.WaitGroup
	for i := range kinds {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for r := 0; vx.Again(r) && wrong[i] == ""; r++ {
				wrong[i] = verifWork(kinds[i], c, x, root, fps)
			}
		}(i)
	}
	wg.Wait()
	vx.Atomic(1)
	for _, w := range wrong {
		vx.Assert(w == "", "used by several goroutines: "+w)
	}
	vx.Assert(x.Close() == nil, "closing a reader succeeds")
	vx.Reach("checked")
}

// VerifInterleave: P28, the calls of several queries in any order.
func VerifInterleave() {
	c := newCorpus()
	root := verifBuild(c)
	x := verifOpen(root)
	fps := c.fingerprints()
	if len(fps) == 0 {
		vx.Done()
	}
	shared := 0
	for _, f := range fps {
		if len(c.list(f)) > 1 {
			shared++
		}
	}
	type user struct {
		q    *Query
		cap  int
		got  map[uint32][]Doc
		ends bool
	}
	us := []*user{{cap: 0}, {cap: 2}}
	for _, u := range us {
		u.q = x.StartQuery(QueryMaxBlot)
		u.got = map[uint32][]Doc{}
	}
	step := func(u *user) {
		b := make([]Blot, 1)
		if u.cap > 0 {
			b[0].Docs = make([]Doc, 0, u.cap)
		}
		n, err := u.q.Next(b)
		if err == io.EOF {
			u.ends = true
			return
		}
		vx.Assert(err == nil && n == 1 && !u.ends, "enumerating goes on")
		u.got[b[0].Blot] = append(u.got[b[0].Blot], b[0].Docs...)
	}
	for s := 0; s < vx.Param("steps", 4); s++ {
		switch op := vx.Choose("op", 5); op {
		case 0, 1:
			step(us[op])
		case 2:
			f := fps[s%len(fps)]
			b := Blot{Blot: f}
			err := us[s%2].q.Get(&b)
			vx.Assert(err == nil || err == io.EOF, "looking up succeeds")
			verifCheckList(c.list(f), b.Docs, "lookup between others")
		case 3:
			w := verifWork(2+s%2, c, x, root, fps)
			vx.Assert(w == "", "between others: "+w)
		case 4:
			w := verifWork(4, c, x, root, fps)
			vx.Assert(w == "", "between others: "+w)
		}
	}
	limit := 2
	for _, f := range fps {
		limit += len(c.list(f))
	}
	for _, u := range us {
		for k := 0; !u.ends; k++ {
			if k > limit {
				vx.Fail("enumeration ends")
				return
			}
			step(u)
		}
		n := 0
		for f, ds := range u.got {
			if len(c.list(f)) > 1 {
				n++
			}
			verifCheckList(c.list(f), ds, "enumeration between others")
		}
		vx.Assert(n == shared, "every duplicated fingerprint is yielded to each query")
	}
	vx.Reach("checked")
}

