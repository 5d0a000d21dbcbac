package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

// verifPool is a set of words and a corpus of documents made of them, whose
// files exist.
type verifPool struct {
	v    *dupi.VerifCorpus
	ws   []dupi.VerifWord
	dir  string
	root string
	docs []*dupi.VerifDoc
}

func verifJoint(k int) func(int) string {
	return func(int) string { return []string{" ", ",\n"}[k] }
}

// choice gives n words of the pool, each chosen.
func (p *verifPool) choice(n int) (out []dupi.VerifWord) {
	for i := 0; i < n; i++ {
		out = append(out, p.ws[vx.Choose("pick", len(p.ws))])
	}
	return
}

// verifMakePool makes the index: the first document has the pool's words in
// order, the others any choice of them.
func verifMakePool() *verifPool {
	p := &verifPool{v: dupi.NewVerifCorpus(), dir: vx.TempDir()}
	p.root = filepath.Join(p.dir, "idx")
	for i := 0; i < vx.Param("pool", 3); i++ {
		p.ws = append(p.ws, p.v.Word())
	}
	for i := 0; i < vx.Param("docs", 2); i++ {
		ws := p.ws
		joint := 0
		if i > 0 {
			ws = p.choice(vx.Param("words", 3))
			joint = vx.Choose("joint", vx.Param("joints", 2))
		}
		fn := filepath.Join(p.dir, fmt.Sprintf("d%d", i))
		head := strings.Repeat("head ", vx.Param("head", 0))
		d := p.v.Add(fn, ws, verifJoint(joint), "\n", uint32(len(head)))
		vx.WriteFile(fn, append([]byte(head), d.Text...))
		p.docs = append(p.docs, d)
	}
	p.v.Create(p.root)
	return p
}

func verifLine(d *dupi.VerifDoc) string {
	return fmt.Sprintf("\t%s %d:%d\n", d.Path, d.Start, d.End)
}

// verifLines splits into lines, each with its end.
func verifLines(s string) []string {
	ls := strings.SplitAfter(s, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// verifSame compares two lists, whatever their order.
func verifSame(a, b []string) bool {
	n := map[string]int{}
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}
