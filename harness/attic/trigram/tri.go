package trigram

import (
	"github.com/go-air/dupi/internal/vx"
	"github.com/go-air/dupi/token"
)

var verifFoldTab = func() (t [256]byte) {
	for i := range t {
		c := byte(i)
		switch {
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9':
			t[i] = c
		case c >= 'A' && c <= 'Z':
			t[i] = c + 32
		default:
			t[i] = '_'
		}
	}
	return
}()

func verifFold(c byte) byte { return verifFoldTab[c] }

// VerifTrigram: P23 for every token sequence within the bound.
func VerifTrigram() {
	nt := vx.InRange("ntok", 0, vx.Param("toks", 3))
	var toks []token.T
	hist := []byte("___")
	var want [][3]byte
	total := 0
	for i := 0; i < nt; i++ {
		word := vx.Bool("word")
		n := vx.InRange("len", 0, vx.Param("len", 2))
		if total += n; total > vx.Param("total", 3) || !word && n == 0 {
			vx.Done()
		}
		lit := vx.Bytes("lit", n)
		if word {
			toks = append(toks, token.T{Tag: token.Word, Lit: lit})
			for _, c := range lit {
				hist = append(hist, verifFold(c))
				want = append(want, [3]byte{hist[len(hist)-3], hist[len(hist)-2], hist[len(hist)-1]})
			}
		} else {
			toks = append(toks, token.T{Tag: token.Other, Lit: lit})
			hist = append(hist, '_')
			want = append(want, [3]byte{hist[len(hist)-3], hist[len(hist)-2], hist[len(hist)-1]})
		}
	}
	k := 0
	check := func(t T) {
		vx.Assert(int(t) < NumTrigrams, "trigrams are below NumTrigrams")
		vx.Assert(k < len(want), "one trigram per letter")
		s := t.String()
		vx.Assert(len(s) == 3, "a trigram is three letters")
		vx.Assert(s[0] == want[k][0] && s[1] == want[k][1] && s[2] == want[k][2], "a trigram is the last three letters visited")
		k++
	}
	VisitTokens(toks, check)
	vx.Assert(k == len(want), "every letter gives a trigram")
	pre := T(vx.U16("pre"))
	got := FromTokens([]T{pre}, toks)
	vx.Assert(len(got) == len(want)+1, "collecting gives as many trigrams as visiting")
	vx.Assert(got[0] == pre, "collecting appends")
	k = 0
	for _, t := range got[1:] {
		check(t)
	}
	if nt > 1 {
		vx.Reach("two")
	}
}

// VerifTrigramStep: from every starting trigram code.
func VerifTrigramStep() {
	x, y, z := vx.U16("x"), vx.U16("y"), vx.U16("z")
	vx.Assume(x < NumLetters && y < NumLetters && z < NumLetters)
	start := T(x*NumLetters*NumLetters + y*NumLetters + z) // every code
	c := vx.U8("c")
	s0 := start.String()
	word := vx.Bool("word")
	tok := token.T{Tag: token.Other, Lit: []byte{c}}
	w := byte('_')
	if word {
		tok.Tag = token.Word
		w = verifFold(c)
	}
	n := 0
	end := VisitToken(start, tok, func(t T) {
		n++
		vx.Assert(int(t) < NumTrigrams, "trigrams are below NumTrigrams")
		s := t.String()
		vx.Assert(len(s) == 3 && s[0] == s0[1] && s[1] == s0[2] && s[2] == w, "a step drops the first letter and appends the new one")
	})
	vx.Assert(n == 1, "one trigram per letter")
	end2, l := FromToken(nil, start, tok)
	vx.Assert(len(l) == 1 && l[0] == end && end2 == end, "collecting agrees with visiting")
	vx.Assert(int(T(vx.U16("any")).Shift(Letter(rune(vx.U32("r"))))) < NumTrigrams, "shifting any code stays in the alphabet")
	vx.Assert(Zero().String() == "___", "the empty history")
}
