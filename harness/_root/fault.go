package dupi

import (
	"os"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// verifCopy copies the files of an index.
func verifCopy(from, to string) {
	vx.Assert(os.Mkdir(to, 0755) == nil, "mkdir")
	es, err := os.ReadDir(from)
	vx.Assert(err == nil && len(es) > 0, "an index has files")
	for _, e := range es {
		d, err := os.ReadFile(filepath.Join(from, e.Name()))
		vx.Assert(err == nil, "read")
		vx.WriteFile(filepath.Join(to, e.Name()), d)
	}
}

// VerifFault: P17, any one file operation of a session fails.
func VerifFault() {
	dir := vx.TempDir()
	c := newCorpus()
	base := vx.Param("base", 0)
	kind := vx.Param("kind", vx.FaultChanges)
	roots := [3]string{filepath.Join(dir, "base"), filepath.Join(dir, "dry"), filepath.Join(dir, "idx")}
	k := 0
	for ; k < vx.Param("pre", 0); k++ {
		c.fixed(k)
	}
	nd, words := vx.Param("docs", 2), vx.Param("words", 2)
	for i := 0; i < base+nd; i++ {
		// words at either end of the shards
		var ws []vword
		for j := 0; j < words; j++ {
			up := vx.U32("up")
			vx.Assume(up < uint32(0x100000000/int64(c.space())))
			h := up * c.space()
			if (i+j)%2 != 0 {
				h += c.space() - 1
			}
			nm := verifNames[c.nw : c.nw+1]
			c.nw++
			ws = append(ws, vword{vx.HashWordOf(nm, h), h})
		}
		c.addWords("/f/"+verifItoa(i), ws, verifSep, "", uint32(100*i))
	}
	nbase := 0
	if base > 0 {
		nbase = base + vx.Param("pre", 0)
		xr, err := IndexerFromConfig(c.config(roots[0]))
		vx.Assert(err == nil, "creating an index succeeds")
		for _, d := range c.docs[:nbase] {
			c.put(xr, d)
		}
		vx.Assert(xr.Close() == nil, "closing succeeds")
		verifCopy(roots[0], roots[1])
		verifCopy(roots[0], roots[2])
	}
	session := func(root string) bool {
		var xr *Indexer
		var err error
		if base > 0 {
			xr, err = OpenIndexer(root)
		} else {
			xr, err = IndexerFromConfig(c.config(root))
		}
		if err != nil {
			return false
		}
		for _, d := range c.docs[nbase:] {
			doc := &Doc{Path: d.path, Start: d.start, End: d.end(), Dat: append([]byte(nil), d.txt...)}
			if xr.Add(doc) != nil {
				return false
			}
		}
		return xr.Close() == nil
	}
	vx.Fault(roots[1], kind, "", -1, false, false)
	ok := session(roots[1])
	names, counts, _ := vx.FaultEnd()
	vx.Assert(ok, "a session without failures succeeds")
	vx.Assert(len(names) >= 2, "a session uses several files")

	f := vx.Choose("file", len(names))
	n, near := counts[f], vx.Param("near", 8)
	at := 0
	if n <= 2*near+4 {
		at = vx.Choose("at", n)
	} else {
		at = vx.Choose("at", 2*near+4)
		switch {
		case at >= near+4:
			at = n - (2*near + 4) + at
		case at >= near:
			at = n * (at - near + 1) / 5
		}
	}
	mode := vx.Choose("mode", vx.Param("modes", 3))
	vx.Fault(roots[2], kind, names[f], at, mode == 1, mode == 2)
	ok = session(roots[2])
	_, _, hit := vx.FaultEnd()
	if !ok {
		vx.Reach("reported")
		return
	}
	if kind == vx.FaultChanges {
		vx.Assert(!hit, "a failure to change a file of the index is reported")
	}
	x := verifOpen(roots[2])
	for _, fp := range c.fingerprints() {
		verifCheckList(c.list(fp), verifGet(x, fp), "after a session reported as successful")
	}
	vx.Reach("succeeded")
}
