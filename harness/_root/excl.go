package dupi

import (
	"os"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// vhandle is an index or an indexer.
type vhandle struct {
	x  *Index
	xr *Indexer
}

func (h *vhandle) close() error {
	if h.xr != nil {
		return h.xr.Close()
	}
	return h.x.Close()
}

// verifSpell makes a directory with symbolic links around w/idx, and gives spellings of it.
func verifSpell() (dir string, ss []string) {
	dir = vx.TempDir()
	for _, d := range []string{"w", "docs", "other"} {
		vx.Assert(os.Mkdir(filepath.Join(dir, d), 0755) == nil, "mkdir")
	}
	for _, l := range [][2]string{{"../w", "docs/up"}, {"idx", "w/alias"}, {dir + "/w/idx", "other/far"}, {"../docs/up/alias", "other/chain"}} {
		vx.Assert(os.Symlink(l[0], filepath.Join(dir, l[1])) == nil, "symlink")
	}
	vx.Chdir(filepath.Join(dir, "docs"))
	return dir, []string{
		dir + "/w/idx",
		"../w/idx/",
		dir + "//w/./../w/idx/.",
		"up/idx",
		// links to the index itself
		dir + "/w/alias",
		"../other/far",
		"../other/chain/",
	}
}

func verifOpenAs(writer bool, root string) (h *vhandle, err error) {
	h = &vhandle{}
	if writer {
		h.xr, err = OpenIndexer(root)
	} else {
		h.x, err = OpenIndex(root)
	}
	return
}

func verifCreate(root string) (*Indexer, error) {
	c := newCorpus()
	cfg, err := NewConfig(root, c.nshards, 1)
	vx.Assert(err == nil, "configuration")
	cfg.NumShatters = 1
	return IndexerFromConfig(cfg)
}

// verifFree: nobody holds the index at root.
func verifFree(root string) {
	var h *vhandle
	var err error
	if vx.WouldBlock(func() { h, err = verifOpenAs(true, root) }) {
		vx.Fail("the index is free again")
		return
	}
	vx.Assert(err == nil, "the index opens for appending")
	vx.Assert(h.close() == nil, "closing succeeds")
	vx.Reach("free")
}

// VerifExclude: P16, one holder and one contender, for every pair of spellings.
func VerifExclude() {
	_, ss := verifSpell()
	hk := vx.Choose("holder", 3)
	cs := 0
	if hk == 0 || vx.Param("all", 0) != 0 {
		cs = vx.Choose("created", 4)
	}
	xr, err := verifCreate(ss[cs])
	vx.Assert(err == nil, "creating an index succeeds")
	txt := []byte("alpha beta")
	vx.Assert(xr.Add(&Doc{Path: "one", End: uint32(len(txt)), Dat: txt}) == nil, "adding succeeds")
	holder := &vhandle{xr: xr}
	if hk > 0 {
		vx.Assert(xr.Close() == nil, "closing succeeds")
		holder, err = verifOpenAs(hk == 1, ss[vx.Choose("opened", len(ss))])
		vx.Assert(err == nil, "a closed index opens")
	}
	ck := vx.Choose("contender", 3)
	s := ss[vx.Choose("contended", len(ss))]
	var c *vhandle
	var cerr error
	blocked := vx.WouldBlock(func() {
		if ck == 2 {
			_, cerr = verifCreate(s)
			return
		}
		c, cerr = verifOpenAs(ck == 1, s)
	})
	if ck == 2 && !blocked {
		// whether creating over an index waits or fails at once
		vx.Assert(cerr != nil, "an index cannot be created over another")
	} else if ck != 2 {
		vx.Assert((blocked || cerr != nil) == (hk != 2 || ck != 0), "opening waits or fails exactly while a writer has the index, or as a writer while anyone has it")
	}
	vx.Assert(holder.close() == nil, "closing succeeds")
	if blocked {
		vx.Settle()
		vx.Assert(c != nil || ck == 2, "a waiting opener gets the index once it is closed")
		vx.Reach("blocked")
	}
	if ck == 2 {
		vx.Assert(cerr != nil, "an index cannot be created over another")
	} else if c != nil && (cerr == nil || blocked) {
		vx.Assert(cerr == nil, "a waiting opener gets the index once it is closed")
		if cerr == nil {
			vx.Assert(c.close() == nil, "closing succeeds")
		}
	}
	if cs == 0 && s == ss[0] || vx.Param("all", 0) != 0 {
		verifFree(ss[0])
	}
}

// VerifHolders: P16, every history of opening and closing.
func VerifHolders() {
	_, ss := verifSpell()
	xr, err := verifCreate(ss[0])
	vx.Assert(err == nil, "creating an index succeeds")
	open := []*vhandle{{xr: xr}}
	steps := vx.Param("steps", 4)
	for i := 0; i < steps; i++ {
		op := vx.Choose("op", 2+len(open))
		if op >= 2 {
			k := op - 2
			vx.Assert(open[k].close() == nil, "closing succeeds")
			open = append(append([]*vhandle(nil), open[:k]...), open[k+1:]...)
			continue
		}
		want := op == 1 && len(open) > 0
		for _, h := range open {
			want = want || h.xr != nil
		}
		var h *vhandle
		var herr error
		got := vx.WouldBlock(func() { h, herr = verifOpenAs(op == 1, ss[i%len(ss)]) })
		vx.Assert((got || herr != nil) == want, "opening waits or fails exactly while a writer has the index, or as a writer while anyone has it")
		if !got && herr != nil {
			continue
		}
		if got {
			for _, o := range open {
				vx.Assert(o.close() == nil, "closing succeeds")
			}
			open = nil
			vx.Settle()
			vx.Assert(h != nil, "a waiting opener gets the index once it is closed")
			if h == nil {
				return
			}
			vx.Reach("blocked")
		}
		vx.Assert(herr == nil, "opening succeeds")
		open = append(open, h)
		if len(open) == 3 {
			vx.Reach("three")
		}
	}
	for _, o := range open {
		vx.Assert(o.close() == nil, "closing succeeds")
	}
	verifFree(ss[0])
}

// VerifLetGo: P16, failing releases the lock.
func VerifLetGo() {
	dir, ss := verifSpell()
	root := ss[vx.Choose("spelling", vx.Param("spellings", 2))*3%4]
	real := filepath.Join(dir, "w/idx")
	how := vx.Choose("how", 4)
	if how == 0 {
		// creating fails: something is there, or a file where the directory would be
		kind := vx.Choose("there", 2)
		if kind == 0 {
			vx.Assert(os.Mkdir(real, 0755) == nil, "mkdir")
		} else {
			vx.WriteFile(real, []byte("a file"))
		}
		_, err := verifCreate(root)
		vx.Assert(err != nil, "creating over a file or directory fails")
		vx.Assert(os.Remove(real) == nil, "remove")
		var xr *Indexer
		if vx.WouldBlock(func() { xr, err = verifCreate(ss[0]) }) {
			vx.Fail("a failed creation leaves the lock free")
			return
		}
		vx.Assert(err == nil, "creating succeeds once nothing is in the way")
		vx.Assert(xr.Close() == nil, "closing succeeds")
		verifFree(root)
		return
	}
	xr, err := verifCreate(ss[0])
	vx.Assert(err == nil, "creating an index succeeds")
	if how == 1 {
		// closing fails: a directory where the file would be
		name := []string{"cfg.json", "files.fnm"}[vx.Choose("file", 2)]
		p := filepath.Join(real, name)
		if vx.Bool("appending") {
			vx.Assert(xr.Close() == nil, "closing succeeds")
			xr, err = OpenIndexer(root)
			vx.Assert(err == nil, "opening succeeds")
			vx.Assert(os.Remove(p) == nil, "remove")
		}
		vx.Assert(os.Mkdir(p, 0755) == nil, "mkdir")
		vx.Assert(xr.Close() != nil, "closing fails if the index cannot be written")
		vx.Assert(os.RemoveAll(real) == nil, "remove")
		if vx.WouldBlock(func() { xr, err = verifCreate(root) }) {
			vx.Fail("a failed closing leaves the lock free")
			return
		}
		vx.Assert(err == nil, "creating succeeds")
		vx.Assert(xr.Close() == nil, "closing succeeds")
		verifFree(root)
		return
	}
	// opening fails: a file is damaged or missing
	vx.Assert(xr.Close() == nil, "closing succeeds")
	es, err := os.ReadDir(real)
	vx.Assert(err == nil && len(es) > 2, "an index has several files")
	p := filepath.Join(real, es[vx.Choose("file", len(es))].Name())
	old, err := os.ReadFile(p)
	vx.Assert(err == nil, "read")
	switch vx.Choose("damage", 3) {
	case 0:
		vx.Assert(os.Remove(p) == nil, "remove")
	case 1:
		vx.WriteFile(p, []byte("{}"))
	case 2:
		vx.Assert(os.Remove(p) == nil, "remove")
		vx.Assert(os.Mkdir(p, 0755) == nil, "mkdir")
	}
	h, err := verifOpenAs(how == 2, root)
	if err == nil {
		h.close()
		vx.Reach("opens anyway")
	} else {
		vx.Reach("fails")
	}
	vx.Assert(os.RemoveAll(p) == nil, "remove")
	vx.WriteFile(p, old)
	verifFree(ss[0])
}
