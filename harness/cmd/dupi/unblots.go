package main

import (
	"fmt"
	"strings"

	"github.com/go-air/dupi/internal/vx"
)

// VerifUnblot: P20, the unblot command groups the documents having a
// fingerprint by the text that produces it.
func VerifUnblot() {
	p := verifMakePool()
	fps := p.v.Fingerprints()
	// and one that nothing has
	for f := uint32(0); ; f++ {
		if len(p.v.List(f)) == 0 {
			fps = append(fps, f)
			break
		}
	}
	all := vx.Bool("all")
	args := []string{"-r", p.root, "unblot"}
	if all {
		args = append(args, "-all")
	}
	var want []map[string][]string
	for _, f := range fps {
		args = append(args, fmt.Sprintf("%x", f))
		m := map[string][]string{}
		for _, d := range p.v.List(f) {
			for i := range d.Fps {
				if d.Fps[i] == f {
					s := d.Span[i]
					t := string(d.Text[s[0]-d.Start : s[1]-d.Start])
					m[t] = append(m[t], verifLine(d))
					break
				}
			}
		}
		if len(m) > 1 {
			vx.Reach("several texts")
		}
		if !all {
			for t, ls := range m {
				if len(ls) < 2 {
					delete(m, t)
				}
			}
		}
		want = append(want, m)
	}
	out, failed := vx.RunCLI(args, verifCLIMain)
	vx.Assert(!failed, "the command succeeds")
	rest := string(out)
	for _, m := range want {
		for len(m) > 0 {
			vx.Assert(strings.HasPrefix(rest, "text:\n'''\n"), "as many texts as are shared")
			if !strings.HasPrefix(rest, "text:\n'''\n") {
				return
			}
			rest = rest[len("text:\n'''\n"):]
			end := strings.Index(rest, "'''\n")
			vx.Assert(end >= 0, "a text is quoted")
			if end < 0 {
				return
			}
			t := rest[:end]
			rest = rest[end+4:]
			end = strings.Index(rest, "text:\n")
			if end < 0 {
				end = len(rest)
			}
			ls, ok := m[t]
			vx.Assert(ok, "the texts that produce the fingerprint first in a document")
			vx.Assert(verifSame(ls, verifLines(rest[:end])), "each document under its text")
			rest = rest[end:]
			if len(ls) > 1 {
				vx.Reach("shared")
			}
			if !ok {
				return
			}
			delete(m, t)
		}
	}
	vx.Assert(rest == "", "no other texts")
}
