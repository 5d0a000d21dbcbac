package main

import (
	"encoding/json"
	"math"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// VerifInspect: P18, what the inspect command prints.
func VerifInspect() {
	dir := vx.TempDir()
	vx.Chdir(dir)
	v := dupi.NewVerifCorpus()
	for i := 0; i < vx.Param("docs", 3); i++ {
		var ws []dupi.VerifWord
		for j := 0; j <= i; j++ {
			ws = append(ws, v.Word())
		}
		v.Add(filepath.Join(dir, "f", verifDigit(i)), ws, verifJoint(0), "", uint32(i))
	}
	root := filepath.Join(dir, "idx")
	v.Create(root)
	posts, n := 0, float64(v.Space())
	var counts []float64
	for _, f := range v.Fingerprints() {
		k := len(v.List(f))
		posts += k
		counts = append(counts, float64(k))
	}
	mean := float64(posts) / n
	sos := (n - float64(len(counts))) * mean * mean
	for _, c := range counts {
		sos += (c - mean) * (c - mean)
	}
	sigma := math.Sqrt(sos / n)

	out, failed := vx.RunCLI([]string{"-r", root, "inspect"}, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	for _, w := range []string{" " + verifDec(len(v.Docs())) + " docs\n", " " + verifDec(posts) + " posts\n", " " + verifDec(int(v.Space())) + " blots\n"} {
		vx.Assert(strings.Contains(string(out), w), "the numbers of documents, posts and blots")
	}
	out, failed = vx.RunCLI([]string{"-r", root, "inspect", "-json"}, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	var st dupi.Stats
	vx.Assert(json.Unmarshal(out, &st) == nil, "the JSON form reads back")
	vx.Assert(st.NumDocs == uint64(len(v.Docs())) && st.NumPosts == uint64(posts) && st.NumBlots == uint64(v.Space()), "the numbers in the JSON form")
	vx.Assert(math.Abs(st.BlotMean-mean) <= 1e-6*mean && math.Abs(st.BlotSigma-sigma) <= 1e-6*sigma, "mean and deviation")
	if posts > len(counts) {
		vx.Reach("shared")
	}
	vx.Reach("checked")
}

func verifDigit(i int) string { return string(rune('0' + i)) }

func verifDec(n int) string {
	if n < 10 {
		return verifDigit(n)
	}
	return verifDec(n/10) + verifDigit(n%10)
}
