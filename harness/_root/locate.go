package dupi

import (
	"bytes"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

var verifSeps = []string{" ", " -\n", "\u00a0", "_"}

// verifText makes a document text of n words with symbolic hashes, repeats and
// separators, in a file of its own (behind other text) or in memory.
func verifText(c *vcorpus, n int, path string) (*vdoc, *Doc) {
	var ws []vword
	for i := 0; i < n; i++ {
		if r := vx.Param("repeat", 0); r > 0 && i >= r && vx.Bool("repeat") {
			ws = append(ws, ws[i-r])
			vx.Reach("repeated")
			continue
		}
		w := c.word()
		if vx.Param("upper", 0) == i+1 {
			w.txt = bytes.ToUpper(w.txt)
		}
		ws = append(ws, w)
	}
	k := vx.Param("seps", 1)
	sep := func(i int) string { return verifSeps[vx.Choose("sep", k)] }
	start := uint32(0)
	file := vx.Param("file", 0)
	pre := ""
	if file == 2 {
		pre = "Other text \u00e9."
		start = uint32(len(pre))
	} else if file == 0 {
		start = vx.U32("start")
		vx.Assume(start < 0xffffff00)
	}
	d := c.addWords(path, ws, sep, []string{"", ".\n"}[vx.Choose("tail", k)%2], start)
	doc := &Doc{Path: d.abs, Start: start, End: d.end(), Dat: append([]byte(nil), d.txt...)}
	if file > 0 {
		vx.WriteFile(path, append([]byte(pre), d.txt...))
		if file == 2 {
			vx.WriteFile(path, append(append([]byte(pre), d.txt...), "more text here"...))
		}
		doc.Dat = nil
	}
	return d, doc
}

func verifEmptyIndex(c *vcorpus, root string) *Index {
	xr, err := IndexerFromConfig(c.config(root))
	vx.Assert(err == nil, "creating an index succeeds")
	vx.Assert(xr.Close() == nil, "closing succeeds")
	return verifOpen(root)
}

// VerifLocate: P13, locating a fingerprint.
func VerifLocate() {
	c := newCorpus()
	dir := vx.TempDir()
	x := verifEmptyIndex(c, filepath.Join(dir, "idx"))
	d, doc := verifText(c, vx.Param("words", 4), filepath.Join(dir, "doc"))
	g := vx.U32("fingerprint")
	vx.Assume(g < c.space())
	s, e, err := x.FindBlot(g, doc)
	if err != nil {
		for _, f := range d.fps {
			vx.Assert(f != g, "locating a fingerprint of the document succeeds")
		}
		vx.Reach("absent")
		return
	}
	at := -1
	for i := range d.fps {
		if d.span[i][0] == s && d.span[i][1] == e {
			at = i
		}
	}
	vx.Assert(at >= 0, "the range consists of window+1 words of the document")
	if at >= 0 {
		vx.Assert(d.fps[at] == g, "the text at the range produces the fingerprint")
		vx.Reach("found")
		if at > 0 {
			vx.Reach("found later")
		}
	}
	vx.Assert(string(doc.Dat) == string(d.txt), "the document has its own text")
	vx.Assert(doc.Start == d.start && doc.End == d.end(), "the document's range is kept")
}

// VerifMatch: P13, matching fingerprint texts.
func VerifMatch() {
	c := newCorpus()
	dir := vx.TempDir()
	x := verifEmptyIndex(c, filepath.Join(dir, "idx"))
	d, doc := verifText(c, vx.Param("words", 4), filepath.Join(dir, "doc"))
	for i, f := range d.fps {
		d.fps[i] = uint32(vx.Conc(uint64(f)))
	}
	text := func(i int) string { return string(d.txt[d.span[i][0]-d.start : d.span[i][1]-d.start]) }
	m := map[uint32][]byte{}
	// passages of the document, or texts differing from them in a separator or
	// in case, or texts of other words with the same fingerprint
	for k := 0; k < vx.Param("passages", 2); k++ {
		i := vx.Choose("passage", len(d.fps)+1)
		if i == len(d.fps) {
			m[uint32(vx.Param("a", 0))^2] = []byte("wholly other")
			continue
		}
		t := []byte(text(i))
		switch vx.Choose("kind", vx.Param("kinds", 4)) {
		case 1:
			t = bytes.ToUpper(t)
		case 2:
			t = bytes.Replace(t, []byte(" "), []byte("  "), 1)
		case 3:
			t = []byte("other")
		case 4: // a part
			t = t[:len(t)-1]
		case 5:
			t = t[1:]
		case 6: // and more
			t = append(append([]byte(nil), t...), d.txt[d.span[i][1]-d.start:]...)
			t = append(t, 'q')
		}
		m[d.fps[i]] = t
	}
	n := len(m)
	want := map[uint32]string{}
	for i, f := range d.fps {
		if t, ok := m[f]; ok && string(t) == text(i) {
			want[f] = string(t)
			vx.Reach("matched")
		}
	}
	got, err := x.FindBlots(m, doc)
	vx.Assert(err == nil, "matching succeeds")
	vx.Assert(len(got) == len(want), "exactly the fingerprints whose text occurs")
	for f, t := range got {
		w, ok := want[f]
		vx.Assert(ok && w == string(t), "each with the text")
	}
	vx.Assert(len(m) == n, "the given set is kept")
	vx.Reach("checked")
}

// VerifLocateBroken: P13/P14, a document that cannot be loaded is an error.
func VerifLocateBroken() {
	c := newCorpus()
	dir := vx.TempDir()
	x := verifEmptyIndex(c, filepath.Join(dir, "idx"))
	d, _ := verifText(c, 3, filepath.Join(dir, "doc"))
	f := uint32(vx.Conc(uint64(d.fps[0])))
	txt := d.txt[d.span[0][0]-d.start : d.span[0][1]-d.start]
	bad := &Doc{Path: d.abs, Start: d.start, End: d.end() + 100}
	if vx.Bool("missing") {
		bad = &Doc{Path: d.abs + "x", Start: d.start, End: d.end()}
	}
	if vx.Bool("match") {
		_, err := x.FindBlots(map[uint32][]byte{f: txt}, bad)
		vx.Assert(err != nil, "matching in a document that cannot be loaded is an error")
	} else {
		_, _, err := x.FindBlot(f, bad)
		vx.Assert(err != nil, "locating in a document that cannot be loaded is an error")
	}
	vx.Reach("checked")
}
