package main

import (
	"fmt"
	"path/filepath"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

var verifSeps = []string{" ", ", \n", "\t— "}

// VerifBlot: P20, the blot command prints the fingerprints of files.
func VerifBlot() {
	v := dupi.NewVerifCorpus()
	dir := vx.TempDir()
	root := filepath.Join(dir, "idx")
	v.Create(root)
	ends := vx.Bool("ends")
	lead, tail := "", ""
	if ends {
		lead, tail = "- ", ".\n"
	}
	s := vx.Choose("sep", vx.Param("seps", len(verifSeps)))
	sep := func(i int) string { return verifSeps[(s+i)%len(verifSeps)] }
	want := ""
	args := []string{"-r", root, "blot"}
	offsets := vx.Bool("offsets")
	if offsets {
		args = append(args, "-offsets")
	}
	for i := 0; i < vx.Param("files", 1); i++ {
		fn := filepath.Join(dir, fmt.Sprintf("f%d", i))
		n := vx.InRange("words", vx.Param("min", 0), v.Window()+vx.Param("more", 2))
		var ws []dupi.VerifWord
		for j := 0; j < n; j++ {
			ws = append(ws, v.Word())
		}
		d := v.Doc(fn, ws, sep, tail, uint32(len(lead)))
		vx.WriteFile(fn, append([]byte(lead), d.Text...))
		args = append(args, fn)
		for j, f := range d.Fps {
			want += fmt.Sprintf("%x", f)
			if offsets {
				want += fmt.Sprintf(" %d:%d", d.Span[j][0], d.Span[j][1])
			}
			want += "\n"
		}
	}
	if len(want) > 0 {
		vx.Reach("printed")
	}
	out, failed := vx.RunCLI(args, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	vx.Assert(string(out) == want, "the fingerprints of the file, in order, with the range of their words")
}
