package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// verifTree is a directory tree; every file has a word of its own and one
// that all share.
type verifTree struct {
	v       *dupi.VerifCorpus
	root    string
	files   []verifFile
	skipped []string // words of files that are not to be indexed
	pad     string   // extra separator in front of the words
	n       int
}

type verifFile struct {
	path string // absolute
	size int
	word dupi.VerifWord
}

func (t *verifTree) mkdir(p string) {
	vx.Assert(os.Mkdir(p, 0755) == nil, "mkdir")
}

// file makes a file; ok tells whether it is to be indexed.
func (t *verifTree) file(p string, ok bool) {
	w := dupi.VerifWord{Text: []byte(fmt.Sprintf("file%d", t.n))}
	w.Hash = dupi.VerifFNV(string(w.Text))
	if t.n == 0 && vx.Param("sym", 1) != 0 {
		w = t.v.Word()
	}
	t.n++
	txt := append([]byte("lead "+t.pad+"shared "+t.pad), w.Text...)
	vx.WriteFile(p, txt)
	if ok {
		t.files = append(t.files, verifFile{p, len(txt), w})
	} else {
		t.skipped = append(t.skipped, string(w.Text))
	}
}

// check compares the index with the files.
func (t *verifTree) check(root string, failed bool, empty int) {
	fps := []uint32{dupi.VerifFNV("shared") % t.v.Space()}
	for _, f := range t.files {
		fps = append(fps, f.word.Hash%t.v.Space())
	}
	for _, w := range t.skipped {
		fps = append(fps, dupi.VerifFNV(w)%t.v.Space())
	}
	ls, n := dupi.VerifLookup(root, fps)
	var want, got []string
	for _, f := range t.files {
		want = append(want, fmt.Sprintf("%s %d:%d", f.path, 0, f.size))
	}
	for i := range ls[0] {
		d := &ls[0][i]
		got = append(got, fmt.Sprintf("%s %d:%d", d.Path, d.Start, d.End))
	}
	if failed {
		vx.Assert(n >= uint64(len(got)) && n <= uint64(len(got)+empty), "as many documents as are listed")
	} else {
		vx.Assert(n == uint64(len(want)+empty), "as many documents as visible files")
		vx.Assert(verifSame(want, got), "every visible file once, with its path and full range")
	}
	in := map[string]bool{}
	for _, s := range got {
		vx.Assert(!in[s], "no file twice")
		in[s] = true
	}
	for i, f := range t.files {
		here := ls[1+i]
		if !in[want[i]] {
			vx.Assert(failed && len(here) == 0, "what is listed is complete")
			continue
		}
		delete(in, want[i])
		vx.Assert(len(here) == 1 && here[0].Path == f.path && here[0].Start == 0 && here[0].End == uint32(f.size), "a file is found by its content")
	}
	vx.Assert(len(in) == 0, "nothing but visible files")
	for i := range t.skipped {
		vx.Assert(len(ls[1+len(t.files)+i]) == 0, "hidden and unreadable files are not indexed")
	}
}

func verifHidden(n string) bool { return n[0] == '.' }

// VerifTree: P19, indexing a directory tree from the command line.
func VerifTree() {
	t := &verifTree{v: dupi.NewVerifCorpus()}
	dir := vx.TempDir()
	top := filepath.Join(dir, "top")
	root := filepath.Join(dir, "idx")
	names := []string{"a", ".a", "..a", "a.", "a.b", "..."}
	dirs := []string{"d", ".d", "d.", "..d"}
	t.mkdir(top)
	fn := names[vx.Choose("file", vx.Param("names", len(names)))]
	dn := dirs[vx.Choose("dir", vx.Param("dirs", len(dirs)))]
	gn := names[vx.Choose("sub", vx.Param("subs", 2))]
	bad := vx.Choose("bad", vx.Param("bads", 4))
	vd := !verifHidden(dn)
	p := []string{
		filepath.Join(top, fn),
		filepath.Join(top, dn),
		filepath.Join(top, dn, gn),
	}
	seen := []bool{!verifHidden(fn), vd, vd && !verifHidden(gn)}
	t.mkdir(p[1])
	t.file(p[0], seen[0] && bad != 1)
	t.file(p[2], seen[2] && bad != 2 && bad != 3)
	t.mkdir(filepath.Join(p[1], "e"))
	t.file(filepath.Join(p[1], "e", "deep"), vd && bad != 2)
	t.file(filepath.Join(top, "z"), true)
	t.mkdir(filepath.Join(top, "nothing"))
	empty := 0
	if vx.Param("empty", 1) != 0 {
		vx.WriteFile(filepath.Join(top, "zero"), nil)
		empty = 1
	}
	must := bad > 0 && seen[bad-1]
	if bad > 0 {
		vx.MakeUnreadable(p[bad-1])
		if must {
			vx.Reach("failing")
		}
	}
	args := []string{"-r", root, "index"}
	args = append(args, "-t", "1", "-n", fmt.Sprint(t.v.Shards()), "-s", "1", top)
	_, failed := vx.RunCLI(args, verifCLIMain)
	vx.Assert(failed == must, "the command fails if and only if something cannot be read")
	t.check(root, failed, empty)
	vx.Reach("checked")
}

// VerifArgs: P19, ways to name what is to be indexed, in one or two commands.
func VerifArgs() {
	t := &verifTree{v: dupi.NewVerifCorpus()}
	dir := vx.TempDir()
	top := filepath.Join(dir, "top")
	root := filepath.Join(dir, "idx")
	t.mkdir(top)
	t.mkdir(filepath.Join(top, "sub"))
	t.mkdir(filepath.Join(dir, ".up"))
	t.file(filepath.Join(top, "one"), true)
	t.file(filepath.Join(top, ".one"), false)
	t.file(filepath.Join(top, "sub", "two"), true)
	other := filepath.Join(dir, "other")
	t.mkdir(other)
	form := vx.Choose("form", 10)
	wd := []string{dir, top, top, top, filepath.Join(top, "sub"), filepath.Join(top, "sub"), dir, dir, dir, dir}[form]
	give := [][]string{
		{top},
		{"."},
		{"./"},
		{"./sub/.."},
		{".."},
		{"../"},
		{"top"},
		{"top/one", "top/sub"},
		{"./top/../top/sub/", "top/one"},
		{top + "/sub/../one", "top//sub", "other"},
	}[form]
	args := []string{"-r", root, "index"}
	opts := []string{"-t", "1", "-n", fmt.Sprint(t.v.Shards()), "-s", "1"}
	miss := vx.Bool("missing")
	if miss {
		give = append(give, filepath.Join(dir, "missing"))
	}
	vx.Chdir(wd)
	if vx.Bool("append") {
		// one command for what there is, another one for more
		vx.WriteFile(filepath.Join(other, "x"), nil)
		_, failed := vx.RunCLI(append(append(args, opts...), filepath.Join(other, "x")), verifCLIMain)
		vx.Assert(!failed, "the command succeeds")
		vx.Assert(os.Remove(filepath.Join(other, "x")) == nil, "remove")
		_, failed = vx.RunCLI(append(append(args, "-a"), give...), verifCLIMain)
		vx.Assert(failed == miss, "the command fails if and only if something cannot be read")
		t.check(root, failed, 1)
		vx.Reach("appended")
		return
	}
	if vx.Bool("env") {
		vx.Assert(os.Setenv("DUPIROOT", root) == nil, "setenv")
		args = []string{"index"}
	}
	_, failed := vx.RunCLI(append(append(args, opts...), give...), verifCLIMain)
	vx.Assert(failed == miss, "the command fails if and only if something cannot be read")
	t.check(root, failed, 0)
	vx.Reach("checked")
}
