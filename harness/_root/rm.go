package dupi

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi/internal/vx"
)

// verifTree lists a tree without lock files.
func verifTree(dir string) string {
	s := ""
	for _, l := range vx.Tree(dir) {
		if p := strings.SplitN(l, " ", 3); strings.HasSuffix(p[1], ".lock") && len(strings.TrimSpace(l)) <= len(p[0])+1+len(p[1]) {
			continue
		}
		s += l + "\n"
	}
	return s
}

// VerifRemove: P26 for spellings of the root, neighbours and ways to open.
func VerifRemove() {
	dir := vx.TempDir()
	for _, d := range []string{"w", "w/idx.d", "w/id", "w/idx2", "docs", "docs/sub"} {
		vx.Assert(os.Mkdir(filepath.Join(dir, d), 0755) == nil, "mkdir")
	}
	for _, f := range []string{"w/idx.txt", "w/idx.d/b0.pos", "w/id/dmd", "w/idx2/cfg.json", "docs/one", "docs/sub/two", "cfg.json", "w/dmd", "w/b0.pos"} {
		vx.WriteFile(filepath.Join(dir, f), []byte("content of "+f))
	}
	vx.Chdir(filepath.Join(dir, "docs"))
	before := verifTree(dir)
	var root string
	switch vx.Choose("spelling", vx.Param("spellings", 6)) {
	case 0:
		root = filepath.Join(dir, "w/idx")
	case 1:
		root = dir + "/w/idx/"
	case 2:
		root = "../w/idx"
	case 3:
		root = dir + "//w/./idx2/../idx"
	case 4:
		root = "sub/../../w/idx/."
	case 5:
		root = "idx" // beside the documents
	}
	c := newCorpus()
	cfg, err := NewConfig(root, c.nshards, 1)
	vx.Assert(err == nil, "configuration")
	cfg.NumShatters = 1
	xr, err := IndexerFromConfig(cfg)
	vx.Assert(err == nil, "creating an index succeeds")
	for _, p := range []string{"one", "../docs/sub/two"} {
		txt := []byte("alpha beta gamma")
		vx.Assert(xr.Add(&Doc{Path: p, End: uint32(len(txt)), Dat: txt}) == nil, "adding succeeds")
	}
	after := func() {
		vx.Assert(verifTree(dir) == before, "removing deletes exactly the index's own directory")
		var xr *Indexer
		if vx.WouldBlock(func() { xr, err = IndexerFromConfig(cfg) }) {
			vx.Fail("removing releases the lock")
			return
		}
		vx.Assert(err == nil, "the index can be created again")
		vx.Assert(xr.Close() == nil, "closing succeeds")
		vx.Reach("removed")
	}
	how := vx.Choose("how", vx.Param("hows", 4))
	if how == 0 {
		// right after creating
		vx.Assert(RemoveIndexer(xr) == nil, "removing succeeds")
		after()
		return
	}
	vx.Assert(xr.Close() == nil, "closing succeeds")
	if vx.Bool("chdir") {
		abs, _ := filepath.Abs(root)
		root, _ = filepath.Rel(dir, abs)
		vx.Chdir(dir)
	}
	switch how {
	case 1:
		xr, err = OpenIndexer(root)
		vx.Assert(err == nil, "opening for appending succeeds")
		vx.Assert(RemoveIndexer(xr) == nil, "removing succeeds")
	case 2:
		x, err := OpenIndex(root)
		vx.Assert(err == nil, "opening succeeds")
		vx.Assert(RemoveIndex(x) == nil, "removing succeeds")
	case 3:
		// elsewhere while it is open
		x, err := OpenIndex(root)
		vx.Assert(err == nil, "opening succeeds")
		vx.Chdir(filepath.Join(dir, "w"))
		vx.Assert(RemoveIndex(x) == nil, "removing succeeds")
	}
	after()
}

// VerifRemoveCopy: P26, removing a copy leaves the original.
func VerifRemoveCopy() {
	dir := vx.TempDir()
	root := filepath.Join(dir, "idx")
	xr, err := CreateIndexer(root, 1, 1)
	vx.Assert(err == nil, "creating an index succeeds")
	txt := []byte("alpha beta gamma")
	vx.Assert(xr.Add(&Doc{Path: "one", End: uint32(len(txt)), Dat: txt}) == nil, "adding succeeds")
	vx.Assert(xr.Close() == nil, "closing succeeds")
	before := verifTree(dir)
	cp := filepath.Join(dir, []string{"idx2", "id", "acopy"}[vx.Choose("name", 3)])
	vx.Assert(os.Mkdir(cp, 0755) == nil, "mkdir")
	es, err := os.ReadDir(root)
	vx.Assert(err == nil && len(es) > 0, "readdir")
	for _, e := range es {
		d, err := os.ReadFile(filepath.Join(root, e.Name()))
		vx.Assert(err == nil, "read")
		vx.WriteFile(filepath.Join(cp, e.Name()), d)
	}
	if vx.Bool("writer") {
		xr, err := OpenIndexer(cp)
		vx.Assert(err == nil, "a copied index opens for appending")
		vx.Assert(xr.Root() == cp, "a copied index has its own root")
		vx.Assert(RemoveIndexer(xr) == nil, "removing succeeds")
	} else {
		x, err := OpenIndex(cp)
		vx.Assert(err == nil, "a copied index opens")
		vx.Assert(x.Root() == cp, "a copied index has its own root")
		vx.Assert(RemoveIndex(x) == nil, "removing succeeds")
	}
	vx.Assert(verifTree(dir) == before, "removing a copy deletes exactly the copy")
	x := verifOpen(root)
	st, err := x.Stats()
	vx.Assert(err == nil && st.NumDocs == 1, "the original still opens")
	vx.Reach("removed")
}
