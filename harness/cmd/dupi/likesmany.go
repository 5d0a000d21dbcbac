package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// VerifLikeMany: P21, passages that occur in different numbers of documents.
// The first passage of the file is in some of the documents, the second in
// others; which ones is chosen.
func VerifLikeMany() {
	v := dupi.NewVerifCorpus()
	dir := vx.TempDir()
	root := filepath.Join(dir, "idx")
	nd := vx.Param("docs", 6)
	var ws []dupi.VerifWord
	from, to := []int{}, []int{}
	for i := 0; i < vx.Param("words", 3); i++ {
		ws = append(ws, v.Word())
		for j := 0; j < i; j++ {
			vx.Assume(ws[i].Hash != ws[j].Hash)
		}
		n := vx.Choose("number", nd+1)
		f := 0
		if vx.Param("shift", 0) != 0 && n < nd {
			f = vx.Choose("first", 2) * (nd - n)
		}
		from, to = append(from, f), append(to, f+n)
	}
	joint := func(int) string { return " " }
	fix := func(s string) dupi.VerifWord {
		return dupi.VerifWord{Text: []byte(s), Hash: dupi.VerifFNV(s)}
	}
	var lead []dupi.VerifWord
	for i := range ws {
		lead = append(lead, fix(fmt.Sprintf("lead%d", i)))
	}
	var want []string
	for d := 0; d < nd; d++ {
		dw := []dupi.VerifWord{fix("text")}
		for i, w := range ws {
			if from[i] <= d && d < to[i] {
				dw = append(dw, lead[i], w, fix("text"))
			}
		}
		fn := filepath.Join(dir, fmt.Sprintf("d%d", d))
		doc := v.Add(fn, dw, joint, "\n", 0)
		vx.WriteFile(fn, doc.Text)
		if len(dw) > 1 {
			want = append(want, verifLine(doc))
		}
	}
	v.Create(root)
	fn := filepath.Join(dir, "query")
	var qw []dupi.VerifWord
	for i, w := range ws {
		qw = append(qw, lead[i], w)
	}
	q := v.Doc(fn, qw, joint, "", 0)
	// a passage is of two words: a lead and its word, or (in no document) a
	// word and the next lead
	for i := range q.Fps {
		for j := 0; j < i; j++ {
			vx.Assume(q.Fps[i] != q.Fps[j])
		}
	}
	vx.WriteFile(fn, q.Text)
	want = append(want, "like "+fn+":\n")
	if len(want) > 3 {
		vx.Reach("listed")
	}
	out, failed := vx.RunCLI([]string{"-r", root, "like", fn}, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	vx.Assert(strings.HasPrefix(string(out), want[len(want)-1]), "the file is named first")
	vx.Assert(verifSame(want, verifLines(string(out))), "the documents that share a passage with the file, once each")
}
