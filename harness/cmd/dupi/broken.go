package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// VerifBroken: P27, questions an index cannot answer any more are reported.
func VerifBroken() {
	dir := vx.TempDir()
	vx.Chdir(dir)
	s := verifMakeSite(dir, filepath.Join(dir, "idx"), 1)
	es, err := os.ReadDir(s.root)
	vx.Assert(err == nil, "an index has files")
	var files []string
	for _, e := range es {
		fn := filepath.Join(s.root, e.Name())
		if fi, err := os.Stat(fn); err == nil && !fi.IsDir() && fi.Size() > 0 {
			files = append(files, fn)
		}
	}
	fn := files[vx.Choose("file", len(files))]
	fi, err := os.Stat(fn)
	vx.Assert(err == nil, "stat")
	f := dupi.VerifFNV("passage") % s.v.Space()
	query := filepath.Join(dir, "query")
	vx.WriteFile(query, []byte("Lead Passage and lead passage"))
	asked := [][]string{
		{"unblot", fmt.Sprintf("%x", f)},
		{"unblot", "-all", fmt.Sprintf("%x", f)},
		{"extract", "-sigma", "0"},
		{"extract", "-sigma", "0", "-b"},
		{"extract", "-sigma", "0", "-json"},
		{"like", query},
	}
	args := append([]string{"-r", "idx"}, asked[vx.Choose("command", len(asked))]...)
	_, failed := vx.RunCLI(args, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	if vx.Bool("gone") {
		vx.Assert(os.Remove(fn) == nil, "remove")
	} else {
		vx.Assert(os.Truncate(fn, fi.Size()*int64(vx.Choose("part", 2))/2) == nil, "truncate")
	}
	_, failed = vx.RunCLI(args, verifCLIMain)
	vx.Assert(failed, "a question the index cannot answer any more is a failure")
	vx.Reach("checked")
}
