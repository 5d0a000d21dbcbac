package dupi

import (
	"bytes"
	"io"
	"path/filepath"

	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/internal/vx"
)

// vdoc is a document and what the model says about it.
type vdoc struct {
	path  string // as given to Add
	abs   string
	start uint32
	txt   []byte
	fps   []uint32    // fingerprints modulo the fingerprint space, in text order
	span  [][2]uint32 // byte range of the window+1 words ending at each
}

func (d *vdoc) end() uint32 { return d.start + uint32(len(d.txt)) }

func (d *vdoc) has(fp uint32) bool {
	for _, f := range d.fps {
		if f == fp {
			return true
		}
	}
	return false
}

// vcorpus makes documents of words with symbolic hashes and models the index.
type vcorpus struct {
	nshards, shatters int
	k, m              int // fingerprint window, streams
	docs              []*vdoc
	nw                int
	rate              int
	head              string // of the next document
}

func newCorpus() *vcorpus {
	return &vcorpus{
		nshards:  vx.Param("nshards", 1),
		shatters: vx.Param("nshatters", 1),
		k:        vx.Param("k", 1),
		m:        vx.Param("m", 1),
		rate:     vx.Param("rate", 16),
	}
}

func (c *vcorpus) space() uint32 { return uint32(c.nshards) << 16 }
func (c *vcorpus) window() int   { return c.k * c.m }

func (c *vcorpus) config(root string) *Config {
	cfg, err := NewConfig(root, c.nshards, c.window())
	vx.Assert(err == nil, "configuration")
	cfg.NumShatters = c.shatters
	cfg.BlotConfig = blotter.Config{SeqLen: c.k, Interleave: c.m}
	cfg.DocFlushRate = c.rate
	return cfg
}

// hash gives a word hash: a plus or b plus (or c plus) any multiple of the
// fingerprint space. With "bits" (for windows of two or more; a is 0, the
// space a power of two) the addresses 0, b, c and b^c and the bits above are
// closed under xor.
func (c *vcorpus) hash() uint32 {
	if vx.Param("free", 0) != 0 {
		return vx.U32("hash")
	}
	bit := uint32(vx.U8("bit"))
	vx.Assume(bit <= 1)
	if c.nw == 0 {
		vx.Assume(bit == 0) // the addresses are interchangeable
	}
	up := vx.U32("up")
	b := uint32(vx.Param("b", 1))
	if vx.Param("bits", 0) != 0 {
		sh := uint(16)
		for 1<<sh < c.space() {
			sh++
		}
		vx.Assume(up < 1<<(32-sh))
		v := bit * b
		if x := vx.Param("c", -1); x >= 0 {
			bit2 := uint32(vx.U8("bit2"))
			vx.Assume(bit2 <= 1)
			v ^= bit2 * uint32(x)
		}
		return up<<sh | v
	}
	vx.Assume(up < uint32(0x100000000/int64(c.space())))
	a := uint32(vx.Param("a", 0))
	v := a ^ bit*(a^b)
	if x := vx.Param("c", -1); x >= 0 {
		bit2 := uint32(vx.U8("bit2"))
		vx.Assume(bit2 <= 1)
		v ^= bit2 * (1 - bit) * (a ^ uint32(x))
	}
	return up*c.space() + v
}

const verifNames = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// vword is a word with a symbolic hash.
type vword struct {
	txt []byte
	h   uint32
}

// word makes a fresh word; its hash decides its address.
func (c *vcorpus) word() vword {
	h := c.hash()
	nm := verifNames[c.nw%len(verifNames):][:1]
	if c.nw >= len(verifNames) {
		nm = "z" + nm
	}
	if nm[0] >= 'A' && nm[0] <= 'Z' {
		nm = "q" + string(rune(nm[0]+32))
	}
	c.nw++
	return vword{vx.HashWordOf(nm, h), h}
}

func (c *vcorpus) words(n int) (ws []vword) {
	for i := 0; i < n; i++ {
		ws = append(ws, c.word())
	}
	return
}

func verifSep(i int) string {
	if i%3 == 2 {
		return ", \n"
	}
	if i%4 == 3 {
		return " \u2014"
	}
	return " "
}

// add makes a document of n fresh words; what stands around them and case differ
// from document to document.
func (c *vcorpus) add(path string, n int, start uint32) *vdoc {
	i := len(c.docs) + vx.Param("around", 0)
	tail := ""
	ws := c.words(n)
	if n > 0 {
		c.head = []string{"", "", "\u201c ", "\n"}[i%4]
		tail = []string{"", "\n", ".\u201d", ""}[i%4]
		if i%2 == 1 {
			ws[n-1].txt = bytes.ToUpper(ws[n-1].txt)
		}
	}
	if l := vx.Param("long", 0); l > 0 {
		c.head += string(bytes.Repeat([]byte{'-'}, l))
	}
	return c.addWords(path, ws, verifSep, tail, start)
}

// addInvalid makes a document of n words that is not valid UTF-8.
func (c *vcorpus) addInvalid(path string, n int, start uint32) *vdoc {
	d := c.add(path, n, start)
	d.txt = append(d.txt, 0xff)
	d.fps, d.span = nil, nil
	return d
}

// addWords makes a document of the given words.
func (c *vcorpus) addWords(path string, ws []vword, sep func(int) string, tail string, start uint32) *vdoc {
	d := &vdoc{path: path, start: start}
	d.abs, _ = filepath.Abs(path)
	d.txt = append(d.txt, c.head...)
	c.head = ""
	var pos []uint32
	for i, w := range ws {
		if i > 0 {
			d.txt = append(d.txt, sep(i)...)
		}
		pos = append(pos, start+uint32(len(d.txt)))
		d.txt = append(d.txt, w.txt...)
		if i < c.window() {
			continue
		}
		f := uint32(0)
		for j, cnt := i, 0; cnt < c.k; j, cnt = j-c.m, cnt+1 {
			f ^= ws[j].h
		}
		d.fps = append(d.fps, f%c.space())
		d.span = append(d.span, [2]uint32{pos[i-c.window()], start + uint32(len(d.txt))})
	}
	d.txt = append(d.txt, tail...)
	c.docs = append(c.docs, d)
	return d
}

func verifFNV(w []byte) uint32 {
	h := uint32(2166136261)
	for i, b := range w {
		if b >= 'A' && b <= 'Z' || i > 0 && w[i-1] == 0xc3 && b >= 0x80 && b <= 0x96 {
			b += 32
		}
		h *= 16777619
		h ^= uint32(b)
	}
	return h
}

func verifItoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return verifItoa(n/10) + string(rune('0'+n%10))
}

// fixed makes the i-th of a series of documents without symbolic parts:
// all share a fingerprint, some share others, one is longer.
func (c *vcorpus) fixed(i int) *vdoc {
	lits := []string{"Alpha", "beta2", "GAMMA", "d", "eps", "Zeta", "eta", "theta9", "IOTA", "kappa", "la", "mu", "nu", "xi", "\u00c4r\u00e9"}
	var ws []vword
	n := c.window() + 1
	if i == 5 {
		n += vx.Param("many", 40)
	}
	for j := 0; j < n; j++ {
		t := lits[j%len(lits)]
		if j >= len(lits) {
			t += verifItoa(j)
		}
		ws = append(ws, vword{[]byte(t), verifFNV([]byte(t))})
	}
	t := []byte("tail" + verifItoa(i%3))
	ws = append(ws, vword{t, verifFNV(t)})
	return c.addWords("/pre/"+verifItoa(i%7)+"/"+verifItoa(i), ws, verifSep, "", uint32(i)*1000)
}

// put adds a document to an index.
func (c *vcorpus) put(x *Indexer, d *vdoc) {
	dat := append([]byte(nil), d.txt...)
	doc := &Doc{Path: d.path, Start: d.start, End: d.end(), Dat: dat}
	vx.Assert(x.Add(doc) == nil, "adding a document succeeds")
}

// list gives the documents having a fingerprint, in the order they were added.
func (c *vcorpus) list(fp uint32) (out []*vdoc) {
	for _, d := range c.docs {
		if d.has(fp) {
			out = append(out, d)
		}
	}
	return
}

func verifSameDoc(d *vdoc, g *Doc) bool {
	return g.Path == d.abs && g.Start == d.start && g.End == d.end()
}

// checkList compares a document list with the model.
func verifCheckList(want []*vdoc, got []Doc, what string) {
	vx.Assert(len(got) == len(want), what+": as many documents as have the fingerprint")
	if len(got) == len(want) {
		for i, d := range want {
			vx.Assert(verifSameDoc(d, &got[i]), what+": each document with its path and range, in order")
		}
	}
}

func verifOpen(root string) *Index {
	x, err := OpenIndex(root)
	vx.Assert(err == nil, "a closed index opens")
	return x
}

func verifGet(x *Index, fp uint32) []Doc {
	b := Blot{Blot: fp}
	err := x.StartQuery(QueryMaxBlot).Get(&b)
	vx.Assert(err == nil || err == io.EOF, "looking up a fingerprint succeeds")
	return b.Docs
}
