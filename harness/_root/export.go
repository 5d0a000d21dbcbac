package dupi

import "github.com/go-air/dupi/internal/vx"

// VerifDoc is a document and what the model says about it.
type VerifDoc struct {
	Path       string
	Start, End uint32
	Text       []byte
	Fps        []uint32    // fingerprints modulo the fingerprint space, in text order
	Span       [][2]uint32 // byte range of the words each comes from
}

// VerifCorpus lets the harnesses of other packages use the model of the index.
type VerifCorpus struct{ c *vcorpus }

// VerifWord is a word with a symbolic hash.
type VerifWord struct {
	Text []byte
	Hash uint32
}

// NewVerifCorpus makes an empty model with the job's parameters.
func NewVerifCorpus() *VerifCorpus { return &VerifCorpus{newCorpus()} }

// Word makes a fresh word.
func (v *VerifCorpus) Word() VerifWord {
	w := v.c.word()
	return VerifWord{w.txt, w.h}
}

// Space is the number of fingerprints.
func (v *VerifCorpus) Space() uint32 { return v.c.space() }

// Shards is the number of shards.
func (v *VerifCorpus) Shards() int { return v.c.nshards }

// Window is the number of words before the one that completes a fingerprint.
func (v *VerifCorpus) Window() int { return v.c.window() }

func (v *VerifCorpus) doc(d *vdoc) *VerifDoc {
	return &VerifDoc{d.abs, d.start, d.end(), d.txt, d.fps, d.span}
}

// Doc models a document of the given words without adding it to the index.
func (v *VerifCorpus) Doc(path string, ws []VerifWord, sep func(int) string, tail string, start uint32) *VerifDoc {
	n := len(v.c.docs)
	d := v.Add(path, ws, sep, tail, start)
	v.c.docs = v.c.docs[:n]
	return d
}

// Add models adding a document of the given words.
func (v *VerifCorpus) Add(path string, ws []VerifWord, sep func(int) string, tail string, start uint32) *VerifDoc {
	var vs []vword
	for _, w := range ws {
		vs = append(vs, vword{w.Text, w.Hash})
	}
	return v.doc(v.c.addWords(path, vs, sep, tail, start))
}

// Create makes the index of the documents added.
func (v *VerifCorpus) Create(root string) {
	xr, err := IndexerFromConfig(v.c.config(root))
	vx.Assert(err == nil, "creating an index succeeds")
	for _, d := range v.c.docs {
		v.c.put(xr, d)
	}
	vx.Assert(xr.Close() == nil, "closing succeeds")
}

// Build makes the index of the corpus chosen by the job.
func (v *VerifCorpus) Build() (root string) { return verifBuild(v.c) }

// Docs gives the documents added.
func (v *VerifCorpus) Docs() (out []*VerifDoc) {
	for _, d := range v.c.docs {
		out = append(out, v.doc(d))
	}
	return
}

// List gives the documents having a fingerprint, in the order they were added.
func (v *VerifCorpus) List(fp uint32) (out []*VerifDoc) {
	for _, d := range v.c.list(fp) {
		out = append(out, v.doc(d))
	}
	return
}

// Fingerprints gives the distinct fingerprints of the corpus (case-split).
func (v *VerifCorpus) Fingerprints() []uint32 { return v.c.fingerprints() }

// VerifLookup gives the documents listed under a fingerprint, and how many documents there are.
func VerifLookup(root string, fps []uint32) (lists [][]Doc, n uint64) {
	x := verifOpen(root)
	for _, f := range fps {
		lists = append(lists, verifGet(x, f))
	}
	st, err := x.Stats()
	vx.Assert(err == nil, "statistics succeed")
	vx.Assert(x.Close() == nil, "closing a reader succeeds")
	return lists, st.NumDocs
}

// VerifFNV gives the hash of a concrete word.
func VerifFNV(w string) uint32 { return verifFNV([]byte(w)) }

// SetShards changes the number of shards of a model without documents.
func (v *VerifCorpus) SetShards(n int) { v.c.nshards = n }
