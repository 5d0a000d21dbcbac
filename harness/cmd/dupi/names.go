package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// VerifNames: P19, names, sizes and numbers of files that are unusual but
// nothing special to the command.
func VerifNames() {
	t := &verifTree{v: dupi.NewVerifCorpus()}
	dir := vx.TempDir()
	top := filepath.Join(dir, "top")
	root := filepath.Join(dir, "idx")
	t.mkdir(top)
	names := []string{"idx", "top", "idx.lock", "cfg.json", "a~", "#a#", "node_modules", "A.TXT", "s p", "-r", "\u00e9", "\xff", "a\nb", "*", "x.go", "p.zip", "a.tmp", "core", "%s", "a\\b", "lost+found", "vendor", "_x", strings.Repeat("n", 200)}
	n := vx.Param("names", len(names))
	if k := vx.Choose("name", n+1); k < n {
		t.file(filepath.Join(top, names[k]), true)
		t.mkdir(filepath.Join(top, "sub"))
		d := filepath.Join(top, "sub", names[k])
		t.mkdir(d)
		t.file(filepath.Join(d, "in"), true)
		t.file(filepath.Join(d, names[k]), true)
		t.mkdir(filepath.Join(top, names[k]+"2"))
		t.file(filepath.Join(top, names[k]+"2", "in"), true)
		vx.Reach("names")
	}
	d := top
	for i := 0; i < vx.Param("deep", 0); i++ {
		d = filepath.Join(d, fmt.Sprintf("l%d", i))
		t.mkdir(d)
		t.file(filepath.Join(d, "f"), true)
	}
	for i := 0; i < vx.Param("many", 0); i++ {
		t.file(filepath.Join(top, fmt.Sprintf("f%d", i)), true)
	}
	for _, z := range []int{100, 511, 4095, 32768, 70000, 1 << 20}[:vx.Param("sizes", 0)] {
		t.pad = strings.Repeat(" ", z)
		t.file(filepath.Join(top, fmt.Sprintf("z%d", z)), true)
		t.pad = ""
	}
	t.file(filepath.Join(top, "zz"), true)
	empty := 0
	if vx.Param("bad", 0) != 0 {
		// not text: a document without fingerprints
		vx.WriteFile(filepath.Join(top, "bad"), []byte("lead shared \xff"))
		empty = 1
	}
	args := []string{"-r", root, "index", "-t", "1", "-n", fmt.Sprint(t.v.Shards()), "-s", "1", top}
	_, failed := vx.RunCLI(args, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	t.check(root, failed, empty)
	vx.Reach("checked")
}
