package dupi

import (
	"io"
	"os"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// VerifDamage: P25, one file of an index has other content. The harness knows
// nothing of the files' formats: it overwrites, cuts or replaces.
func VerifDamage() {
	c := newCorpus()
	root := filepath.Join(vx.TempDir(), "idx")
	xr, err := IndexerFromConfig(c.config(root))
	vx.Assert(err == nil, "creating an index succeeds")
	// three documents, some fingerprints at the ends of the shards
	vs := []uint32{0, c.space() - 1, 1, c.space() - 1}
	nd := vx.Param("docs", 3)
	for i := 0; i < nd; i++ {
		if i > 0 && vx.Param("split", 0) != 0 {
			vx.Assert(xr.Close() == nil, "closing succeeds")
			xr, err = OpenIndexer(root)
			vx.Assert(err == nil, "opening for appending succeeds")
		}
		var ws []vword
		ws = append(ws, vword{vx.HashWordOf("x"+verifItoa(i), 77), 77})
		for j, v := range vs[:1+i%len(vs)] {
			ws = append(ws, vword{vx.HashWordOf("w"+verifItoa(i)+verifItoa(j), v), v})
		}
		c.put(xr, c.addWords("/d"+verifItoa(i%2)+"/f"+verifItoa(i), ws, verifSep, "", uint32(i)))
	}
	vx.Assert(xr.Close() == nil, "closing succeeds")

	es, err := os.ReadDir(root)
	vx.Assert(err == nil && len(es) > 0, "an index has files")
	var files []string
	for _, e := range es {
		// the configuration is P15's, the lock has no content
		if n := e.Name(); !e.IsDir() && filepath.Ext(n) != ".json" && filepath.Ext(n) != ".lock" {
			if d, err := os.ReadFile(filepath.Join(root, n)); err == nil && len(d) > 0 {
				files = append(files, filepath.Join(root, n))
			}
		}
	}
	if k := vx.Param("file", -1); k >= 0 && k < len(files) {
		files = files[k : k+1]
	}
	name := files[vx.Choose("file", len(files))]
	d, err := os.ReadFile(name)
	vx.Assert(err == nil, "read")
	at := func() int {
		near, far := vx.Param("near", 4), vx.Param("far", 4)
		n := near + far + 1
		if n > len(d) {
			return vx.Choose("at", len(d))
		}
		p := vx.Choose("at", n)
		switch {
		case p < near:
			return p
		case p < near+far:
			return len(d) - (p - near) - 1
		}
		return len(d) / 2
	}
	switch vx.Param("mode", 0) {
	case 0: // some bytes overwritten
		p := at()
		for i := 0; i < vx.Param("n", 1) && p+i < len(d); i++ {
			d[p+i] = vx.U8("byte")
		}
	case 1: // cut
		d = d[:at()]
	case 2: // anything short
		d = vx.Bytes("byte", vx.InRange("len", vx.Param("min", 0), vx.Param("n", 4)))
	case 3: // the first bytes anything, the rest in place or gone, zeros after
		p := at()
		d = append(append([]byte(nil), d[:p]...), vx.Bytes("byte", vx.Param("n", 2))...)
		for i := 0; i < vx.Param("zeros", 16); i++ {
			d = append(d, 0)
		}
	case 4: // a run of equal bytes, then any byte
		p := at()
		fill := []byte{0, 0xff, 0x80}[vx.Choose("fill", 3)]
		n := []int{1, 4, 7, 8, 9}[vx.Choose("run", 5)]
		for i := 0; i < n && p+i < len(d); i++ {
			d[p+i] = fill
		}
		if p+n < len(d) {
			d[p+n] = vx.U8("byte")
		}
	}
	vx.WriteFile(name, d)

	if vx.Param("append", 0) != 0 {
		xr, err := OpenIndexer(root)
		if err != nil {
			vx.Reach("refused")
			return
		}
		vx.Reach("opened")
		_ = xr
		return
	}
	x, err := OpenIndex(root)
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Reach("opened")
	vx.Soon(vx.Param("soon", 4000000))
	x.Stats()
	for _, f := range []uint32{0, c.space() - 1, 1, 77, 78} {
		b := Blot{Blot: f}
		if err := x.StartQuery(QueryMaxBlot).Get(&b); err != nil && err != io.EOF {
			vx.Reach("get fails")
		}
		vx.Assert(len(b.Docs) <= len(d)+64, "no more documents than posts")
		b = Blot{Blot: f, Docs: make([]Doc, 0, 2)}
		x.StartQuery(QueryMaxBlot).Get(&b)
		vx.Assert(len(b.Docs) <= 2, "no more documents than fit")
	}
	for size := 0; size < 2; size++ {
		q := x.StartQuery(QueryMaxBlot)
		for calls := 0; ; calls++ {
			if calls > 70000 {
				vx.Fail("enumeration ends")
				return
			}
			bs := []Blot{{}}
			if size > 0 {
				bs[0].Docs = make([]Doc, 0, 1+size)
			}
			n, err := q.Next(bs)
			if err != nil {
				if err != io.EOF {
					vx.Reach("next fails")
				}
				break
			}
			if n == 0 {
				break
			}
		}
	}
	x.Close()
	vx.Reach("checked")
}
