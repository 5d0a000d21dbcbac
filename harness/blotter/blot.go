package blotter

import (
	"bytes"

	"github.com/go-air/dupi/internal/vx"
)

// fnv1 is the 32-bit FNV-1 hash, written from its definition.
func verifFnv1(w []byte) uint32 {
	h := uint32(2166136261)
	for _, b := range w {
		h = h*16777619 ^ uint32(b)
	}
	return h
}

func verifBlot(mk func() T, k, m int) {
	nw := vx.Param("words", 2*k*m+2)
	wl := vx.Param("len", 1)
	b := mk()
	vx.Assert(b.Interleaving() == m, "Interleaving() is the configured number of streams")
	c := b.Config()
	vx.Assert(c.SeqLen == k && c.Interleave == m, "Config() is the configuration")
	hs := make([]uint32, nw)
	for i := 0; i < nw; i++ {
		n := wl
		if i%3 == 1 && wl > 1 {
			n = wl - 1
		}
		w := vx.Bytes("w", n)
		for _, x := range w {
			vx.Assume(x < 0x80)
		}
		orig := append([]byte(nil), w...)
		hs[i] = verifFnv1(bytes.ToLower(w))
		got := b.Blot(w)
		want := uint32(0)
		for j, cnt := i, 0; j >= 0 && cnt < k; j, cnt = j-m, cnt+1 {
			want ^= hs[j]
		}
		vx.Assert(got == want, "fingerprint is the XOR of the hashes of the last k words of the stream")
		vx.Assert(bytes.Equal(w, orig), "the word is not modified")
	}
	vx.Reach("done")
}

// VerifBlotWindow: P02 for every content of the words (ASCII).
func VerifBlotWindow() {
	k := vx.Param("k", 0)
	m := vx.Param("m", 1)
	if k == 0 {
		k = vx.InRange("k", 1, 4)
		m = vx.InRange("m", 1, 3)
	}
	verifBlot(func() T {
		b, err := FromConfig(&Config{SeqLen: k, Interleave: m})
		vx.Assert(err == nil, "configuration accepted")
		return b
	}, k, m)
	// the constructors agree with the configuration
	if m == 1 {
		x, y := NewCirc(k), NewInterleaved(k, 1)
		for i := 0; i < k+1; i++ {
			w := vx.Bytes("v", 1)
			vx.Assume(w[0] < 0x80)
			vx.Assert(x.Blot(w) == y.Blot(w), "one stream is the plain fingerprinter")
		}
	}
}

// VerifBlotCase: words of any UTF-8 content; fingerprints do not depend on case.
func VerifBlotCase() {
	n := vx.InRange("len", 1, vx.Param("n", 2))
	w := vx.Bytes("w", n)
	a, b, c := NewCirc(1), NewCirc(1), NewCirc(1)
	h := a.Blot(w)
	l := bytes.ToLower(w)
	vx.Assert(b.Blot(l) == h, "a word and its lower case have the same fingerprint")
	vx.Assert(h == verifFnv1(l), "a fingerprint of window 1 is the FNV-1 hash of the lower-cased word")
	up := append([]byte(nil), w...)
	for i, x := range up {
		if x >= 'a' && x <= 'z' {
			up[i] = x - 32
		}
	}
	if n == 1 && w[0] < 0x80 || n == 2 && w[0] < 0x80 && w[1] < 0x80 {
		vx.Assert(c.Blot(up) == h, "upper case gives the same fingerprint")
		vx.Reach("upper")
	}
	if w[0] >= 0x80 {
		vx.Reach("nonascii")
	}
}

// VerifBlotConfig: a non-positive number of streams is refused.
func VerifBlotConfig() {
	m := vx.Int("m")
	vx.Assume(m < 1)
	b, err := FromConfig(&Config{SeqLen: 1, Interleave: m})
	vx.Assert(err != nil && b == nil, "interleave below one is refused")
	d := DefaultConfig()
	vx.Assert(d.SeqLen >= 1 && d.Interleave >= 1, "default configuration is usable")
}

// VerifBlotLong: P02 for long words with an arbitrary ASCII byte somewhere.
func VerifBlotLong() {
	sizes := []int{7, 15, 31, 63, 127, 255, 511, 1023, 4095, 65535}
	n := sizes[vx.Choose("size", vx.Param("sizes", len(sizes)))] + vx.Choose("more", 3)
	w := bytes.Repeat([]byte("aBc1"), n/4+1)[:n]
	at := []int{0, n / 2, n - 1}[vx.Choose("at", 3)]
	c := vx.U8("c")
	vx.Assume(c < 0x80)
	w[at] = c
	b := NewCirc(1)
	vx.Assert(b.Blot([]byte("before")) == verifFnv1([]byte("before")), "a fingerprint of window 1 is the FNV-1 hash of the lower-cased word")
	vx.Assert(b.Blot(w) == verifFnv1(bytes.ToLower(w)), "a fingerprint of window 1 is the FNV-1 hash of the lower-cased word")
	vx.Assert(b.Blot([]byte("after")) == verifFnv1([]byte("after")), "a fingerprint of window 1 is the FNV-1 hash of the lower-cased word")
	vx.Reach("long")
}
