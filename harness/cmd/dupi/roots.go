package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// verifSite is an index somewhere, of two documents that share a passage.
type verifSite struct {
	v     *dupi.VerifCorpus
	root  string
	docs  []*dupi.VerifDoc
	posts int
}

func verifMakeSite(dir, root string, shards int) *verifSite {
	s := &verifSite{v: dupi.NewVerifCorpus(), root: root}
	s.v.SetShards(shards)
	// every site has the same texts in files of its own
	w := dupi.VerifWord{Text: []byte("passage"), Hash: dupi.VerifFNV("passage")}
	lead := dupi.VerifWord{Text: []byte("lead"), Hash: dupi.VerifFNV("lead")}
	for i := 0; i < 1+shards; i++ {
		fn := filepath.Join(dir, fmt.Sprintf("s%d-%d", shards, i))
		d := s.v.Add(fn, []dupi.VerifWord{lead, w}, verifJoint(0), "\n", 0)
		vx.WriteFile(fn, d.Text)
		s.docs = append(s.docs, d)
		s.posts++
	}
	s.v.Create(root)
	return s
}

// inspect is the text form of the statistics.
func (s *verifSite) numDocs() uint64 {
	_, n := dupi.VerifLookup(s.root, nil)
	return n
}

// VerifRoots: P27, which index a command works on.
func VerifRoots() {
	dir := vx.TempDir()
	vx.Chdir(dir)
	home := filepath.Join(dir, "home")
	vx.Assert(os.Mkdir(home, 0755) == nil, "mkdir")
	rs := []string{"", filepath.Join(dir, "named"), "named", "./named/", "like", "index"}
	r := rs[vx.Choose("named", len(rs))]
	env := vx.Choose("env", 3)
	var sites []*verifSite
	abs := filepath.Join(dir, "named")
	if r == "like" || r == "index" {
		abs = filepath.Join(dir, r)
	}
	sites = append(sites, verifMakeSite(dir, abs, 1))
	sites = append(sites, verifMakeSite(dir, filepath.Join(dir, "env"), 2))
	sites = append(sites, verifMakeSite(dir, filepath.Join(home, ".dupi"), 3))
	vx.Assert(os.Setenv("HOME", home) == nil, "setenv")
	switch env {
	case 0:
		vx.Assert(os.Unsetenv("DUPIROOT") == nil, "unsetenv")
	case 1:
		vx.Assert(os.Setenv("DUPIROOT", sites[1].root) == nil, "setenv")
	case 2:
		vx.Assert(os.Setenv("DUPIROOT", "env") == nil, "setenv")
	}
	at := 2
	if r != "" {
		at = 0
	} else if env > 0 {
		at = 1
	}
	s := sites[at]
	var args []string
	if r != "" {
		if vx.Bool("equals") {
			args = append(args, "-r="+r)
		} else {
			args = append(args, "-r", r)
		}
	}
	f := dupi.VerifFNV("passage") % s.v.Space()
	query := filepath.Join(dir, "query")
	vx.WriteFile(query, []byte("Lead Passage and lead passage"))
	run := func(a ...string) string {
		out, failed := vx.RunCLI(append(args, a...), verifCLIMain)
		vx.Assert(!failed, "the command succeeds")
		return string(out)
	}
	lines := []string{}
	for _, d := range s.docs {
		lines = append(lines, verifLine(d))
	}
	switch vx.Choose("verb", 6) {
	case 0:
		out := run("inspect")
		vx.Assert(strings.HasPrefix(out, "dupi index at "), "the index is named")
		for _, w := range []string{fmt.Sprintf("%d docs\n", len(s.docs)), fmt.Sprintf("%d posts\n", s.posts), fmt.Sprintf("%d blots\n", s.v.Space())} {
			vx.Assert(strings.Contains(out, " "+w), "the number of documents, posts and blots of the index")
		}
		vx.Reach("inspected")
	case 1:
		out := run("extract", "-b", "-sigma", "0")
		vx.Assert(out == fmt.Sprintf("%x\n", f), "the fingerprint the documents share")
	case 2:
		// any document of the index has it
		q := s.docs[0].Path
		vx.Assert(run("blot", q) == fmt.Sprintf("%x\n", f), "the fingerprints of the index")
	case 3:
		out := run("unblot", fmt.Sprintf("%x", f))
		vx.Assert(out == "text:\n'''\nlead passage'''\n"+strings.Join(lines, ""), "the documents of the index")
	case 4:
		out := run("like", query)
		vx.Assert(verifSame(append(lines, "like "+query+":\n"), verifLines(out)), "the documents of the index")
	case 5:
		run("index", "-a", query)
		vx.Reach("appended")
		for i, t := range sites {
			n := len(t.docs)
			if i == at {
				n++
			}
			vx.Assert(t.numDocs() == uint64(n), "the document is added to the index and to no other")
		}
	}
	vx.Reach("checked")
}

// VerifCreate: P27, a new index gets what the options ask for.
func VerifCreate() {
	dir := vx.TempDir()
	vx.Chdir(dir)
	home := filepath.Join(dir, "home")
	vx.Assert(os.Mkdir(home, 0755) == nil, "mkdir")
	vx.Assert(os.Setenv("HOME", home) == nil, "setenv")
	vx.Assert(os.Unsetenv("DUPIROOT") == nil, "unsetenv")
	file := filepath.Join(dir, "file")
	vx.WriteFile(file, []byte("text to index"))
	roots := []string{filepath.Join(dir, "a"), filepath.Join(dir, "b"), filepath.Join(home, ".dupi"), filepath.Join(dir, "c")}
	at := vx.Choose("where", len(roots))
	var args []string
	switch at {
	case 0:
		args = []string{"-r", "a"}
	case 1:
		vx.Assert(os.Setenv("DUPIROOT", roots[1]) == nil, "setenv")
	}
	args = append(args, "index")
	// window, shards, shatters as the defaults say
	num := []int{10, 4, 4}
	rate := 0
	if k := vx.Choose("options", 6); k > 0 {
		num = [][]int{{1, 4, 4}, {10, 7, 4}, {10, 4, 1}, {23, 1, 7}, {2, 3, 6}}[k-1]
		o := [][]string{{"-t", "1"}, {"-n", "7"}, {"-s", "1"}, {"-n", "1", "-t", "23", "-s", "7"}, {"-t=2", "--s=6", "-n=3", "-v"}}[k-1]
		args = append(args, o...)
		vx.Reach("chosen")
	}
	if at == 3 {
		// a configuration file overrides the options
		cfg, err := dupi.NewConfig(roots[3], 5, 6)
		vx.Assert(err == nil, "configuration")
		cfg.NumShatters = 3
		cfg.DocFlushRate = 9
		num, rate = []int{6, 5, 3}, 9
		vx.Assert(os.Mkdir(roots[3], 0755) == nil, "mkdir")
		vx.Assert(cfg.Write() == nil, "write the configuration")
		vx.Assert(os.Rename(cfg.Path(), filepath.Join(dir, "cfg")) == nil, "rename")
		vx.Assert(os.Remove(roots[3]) == nil, "remove")
		args = append(args, "-c", filepath.Join(dir, "cfg"))
		vx.Reach("file")
	}
	_, failed := vx.RunCLI(append(args, "file"), verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	for i, r := range roots {
		_, err := os.Stat(r)
		vx.Assert((err == nil) == (i == at), "the index is made where asked and nowhere else")
	}
	cfg, err := dupi.ReadConfigFromRoot(roots[at])
	vx.Assert(err == nil, "the configuration of the index reads")
	if err != nil {
		return
	}
	vx.Assert(cfg.SeqLen == num[0] && cfg.NumShards == num[1] && cfg.NumShatters == num[2], "window, shards and shatters as asked for")
	vx.Assert(rate == 0 || cfg.DocFlushRate == rate, "the flush rate as asked for")
	_, n := dupi.VerifLookup(roots[at], nil)
	vx.Assert(n == 1, "one document")
}

// VerifVerbs: P27, a verb is needed, files that are missing are reported.
func VerifVerbs() {
	dir := vx.TempDir()
	vx.Chdir(dir)
	s := verifMakeSite(dir, filepath.Join(dir, "idx"), 1)
	bad := [][]string{
		{},
		{"-r", "idx"},
		{"-r", "idx", "frobnicate"},
		{"-r", "idx", "frobnicate", "inspect"},
		{"-r", "idx", "Inspect"},
		{"-x", "inspect"},
		{"-r", "none", "inspect"},
		{"-r", "none", "extract"},
		{"-r", "none", "blot", s.docs[0].Path},
		{"-r", "none", "unblot", "1"},
		{"-r", "none", "like", s.docs[0].Path},
		{"-r", "none", "index", "-a", s.docs[0].Path},
		{"-r", "idx", "blot", "missing"},
		{"-r", "idx", "like", "missing"},
		{"-r", "idx", "unblot", "zz"},
		{"-r", "idx2", "index", "-n", "0", s.docs[0].Path},
		{"-r", "idx2", "index", "-t", "0", s.docs[0].Path},
		{"-r", "idx2", "index", "-s", "0", s.docs[0].Path},
		{"-r", "idx2", "index", "-c", "missing", s.docs[0].Path},
	}
	_, failed := vx.RunCLI(bad[vx.Choose("command", len(bad))], verifCLIMain)
	vx.Assert(failed, "a command that cannot do what it is asked reports failure")
	_, err := os.Stat(filepath.Join(dir, "none"))
	vx.Assert(err != nil, "no index is made for a question")
	vx.Assert(s.numDocs() == uint64(len(s.docs)), "the index is as before")
	vx.Reach("checked")
}
