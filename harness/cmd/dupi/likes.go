package main

import (
	"path/filepath"
	"strings"

	"github.com/go-air/dupi/internal/vx"
)

// VerifLike: P21, the like command lists the documents sharing a passage.
func VerifLike() {
	p := verifMakePool()
	joint := vx.Choose("joint", vx.Param("qjoints", 2))
	fn := filepath.Join(p.dir, "query")
	n := vx.InRange("words", vx.Param("qmin", 0), vx.Param("qwords", 3))
	head := ""
	if vx.Param("qhead", 0) != 0 {
		head = "\n"
	}
	q := p.v.Doc(fn, p.choice(n), verifJoint(joint), "", uint32(len(head)))
	vx.WriteFile(fn, append([]byte(head), q.Text...))
	var passages []string
	for i, s := range q.Span {
		t := string(q.Text[s[0]-q.Start : s[1]-q.Start])
		for j := range passages {
			if passages[j] != t {
				vx.Assume(q.Fps[i] != q.Fps[j])
			}
		}
		passages = append(passages, t)
	}
	want := []string{"like " + fn + ":\n"}
	for _, d := range p.docs {
		found := false
		for _, s := range d.Span {
			for _, t := range passages {
				if string(d.Text[s[0]-d.Start:s[1]-d.Start]) == t {
					found = true
				}
			}
		}
		if found {
			vx.Reach("listed")
			want = append(want, verifLine(d))
		}
	}
	out, failed := vx.RunCLI([]string{"-r", p.root, "like", fn}, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	vx.Assert(strings.HasPrefix(string(out), want[0]), "the file is named first")
	vx.Assert(verifSame(want, verifLines(string(out))), "the documents that share a passage with the file, once each")
}
