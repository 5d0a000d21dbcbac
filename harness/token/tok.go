package token

import (
	"bytes"
	"unicode"
	"unicode/utf8"

	"github.com/go-air/dupi/internal/vx"
)

// VerifTokenize: P01 for every byte string of up to n bytes.
func VerifTokenize() {
	n := vx.InRange("len", 0, vx.Param("n", 3))
	d := vx.Bytes("d", n)
	off := vx.U32("off")
	vx.Assume(uint64(off)+uint64(n) <= 1<<32-1)
	orig := append([]byte(nil), d...)
	pre := []T{{Tag: Other, Lit: []byte("x"), Pos: 7}}
	var dst []T
	if vx.Param("pre", 0) != 0 {
		dst = append(dst, pre...)
	}
	k := len(dst)
	toks := Tokenize(dst, d, off)
	vx.Assert(bytes.Equal(d, orig), "the document is not modified")
	vx.Assert(len(toks) >= k, "earlier tokens are kept")
	if k > 0 {
		vx.Assert(toks[0].Tag == Other && string(toks[0].Lit) == "x" && toks[0].Pos == 7, "earlier tokens are unchanged")
	}
	toks = toks[k:]
	if !utf8.Valid(d) {
		vx.Reach("invalid")
		vx.Assert(len(toks) == 0, "invalid UTF-8 gives no tokens")
		return
	}
	verifTiles(toks, d, off)
	vx.Observe("ntok", uint64(len(toks)))
	if len(toks) > 1 {
		vx.Reach("many")
	}
	if n > 0 && d[0] >= 0x80 {
		vx.Reach("nonascii")
	}
}

// verifTiles: the tokens are what the text consists of.
func verifTiles(toks []T, d []byte, off uint32) {
	pos := 0
	for i, t := range toks {
		vx.Assert(t.Tag == Word || t.Tag == Other, "token kind")
		vx.Assert(len(t.Lit) > 0, "no empty token")
		vx.Assert(t.Pos == off+uint32(pos), "token position is where the text stands")
		vx.Assert(pos+len(t.Lit) <= len(d), "token within the document")
		vx.Assert(bytes.Equal(t.Lit, d[pos:pos+len(t.Lit)]), "token literal is the text at its position")
		if i > 0 {
			vx.Assert(t.Tag != toks[i-1].Tag, "neighbouring tokens differ in kind")
		}
		for j := 0; j < len(t.Lit); {
			r, w := utf8.DecodeRune(t.Lit[j:])
			isw := unicode.IsLetter(r) || unicode.IsDigit(r)
			vx.Assert(isw == (t.Tag == Word), "word tokens are exactly letters and digits")
			j += w
		}
		pos += len(t.Lit)
	}
	vx.Assert(pos == len(d), "tokens cover the whole document")
}

// VerifTokenizeLong: P01 for a few arbitrary bytes after, or before, a long text.
func VerifTokenizeLong() {
	sizes := []int{62, 255, 510, 1022, 4094, 8190, 32766, 65534}
	size := sizes[vx.Choose("size", vx.Param("sizes", len(sizes)))] + vx.Choose("more", vx.Param("more", 3))
	fill := []string{"a", " ", "b ", "\u00e9"}[vx.Choose("fill", 4)]
	pad := bytes.Repeat([]byte(fill), size/len(fill)+1)[:size/len(fill)*len(fill)]
	x := vx.Bytes("d", vx.Param("n", 2))
	vx.Assume(utf8.Valid(x))
	var d []byte
	if vx.Bool("before") {
		d = append(append(d, x...), pad...)
	} else {
		d = append(append(d, pad...), x...)
	}
	off := vx.U32("off")
	vx.Assume(uint64(off)+uint64(len(d)) <= 1<<32-1)
	verifTiles(Tokenize(nil, d, off), d, off)
	vx.Reach("long")
}
