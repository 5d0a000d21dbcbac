package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/internal/vx"
)

var verifSigmas = []float64{2, 150, 300, 0, -1, 0.5}

// verifDoc1 is the plain output's form of a document.
func verifDoc1(path string, start, end uint32) string {
	return fmt.Sprintf("%s@%d:%d", path, start, end)
}

// VerifExtract: P24.
func VerifExtract() {
	v := dupi.NewVerifCorpus()
	root := v.Build()
	fps := v.Fingerprints()
	posts := 0
	counts := map[uint32]int{}
	for _, f := range fps {
		counts[f] = len(v.List(f))
		posts += counts[f]
	}
	blots := float64(v.Space())
	mean := float64(posts) / blots
	sos := mean * mean * (blots - float64(len(fps)))
	for _, f := range fps {
		d := float64(counts[f]) - mean
		sos += d * d
	}
	si := vx.InRange("sigma", 0, vx.Param("sigmas", len(verifSigmas))-1)
	x := mean + verifSigmas[si]*math.Sqrt(sos/blots)
	if math.Abs(x-math.Floor(x)-0.5) < 1e-6 {
		vx.Done() // rounding may go either way
	}
	N := int(math.Round(x))
	want := map[uint32]bool{}
	for _, f := range fps {
		if counts[f] >= 2 && counts[f] >= N {
			want[f] = true
			if N > 2 {
				vx.Reach("above")
			}
		} else if counts[f] >= 2 {
			vx.Reach("below")
		}
	}
	args := []string{"-r", root, "extract"}
	if si > 0 || vx.Bool("explicit") {
		args = append(args, "-sigma", []string{"2", "150", "300", "0", "-1", "0.5"}[si])
	}
	last := 1 << 30
	see := func(f uint32) bool {
		ok := want[f]
		vx.Assert(ok, "only fingerprints at or above the threshold, once each")
		delete(want, f)
		vx.Assert(counts[f] <= last, "most frequent first")
		last = counts[f]
		return ok
	}
	list := func(f uint32, docs []string) {
		var ls []string
		for _, d := range v.List(f) {
			ls = append(ls, verifDoc1(d.Path, d.Start, d.End))
		}
		vx.Assert(verifSame(ls, docs), "the complete list of documents")
	}
	switch vx.Choose("mode", 3) {
	case 0:
		out, failed := vx.RunCLI(append(args, "-b"), verifCLIMain)
		vx.Assert(!failed, "the command succeeds")
		for _, l := range verifLines(string(out)) {
			f, ok := verifHex(strings.TrimSuffix(l, "\n"))
			vx.Assert(ok, "a fingerprint in hexadecimal per line")
			if !ok || !see(f) {
				return
			}
		}
	case 1:
		out, failed := vx.RunCLI(args, verifCLIMain)
		vx.Assert(!failed, "the command succeeds")
		for _, l := range verifLines(string(out)) {
			w := strings.Split(strings.TrimSuffix(l, "\n"), " ")
			f, ok := verifHex(w[0])
			vx.Assert(ok, "a fingerprint in hexadecimal per line")
			if !ok || !see(f) {
				return
			}
			list(f, w[1:])
		}
	case 2:
		out, failed := vx.RunCLI(append(args, "-json"), verifCLIMain)
		vx.Assert(!failed, "the command succeeds")
		r := &verifJSON{s: string(out)}
		for r.more() {
			bs, ok := r.value().([]interface{})
			vx.Assert(ok && !r.bad, "a sequence of JSON lists")
			if !ok || r.bad {
				return
			}
			for _, b := range bs {
				m, _ := b.(map[string]interface{})
				f, ok := m["Blot"].(uint32)
				vx.Assert(ok, "each with its fingerprint")
				if !ok || !see(f) {
					return
				}
				var ls []string
				ds, _ := m["Docs"].([]interface{})
				for _, d := range ds {
					dm, _ := d.(map[string]interface{})
					p, ok1 := dm["Path"].(string)
					s, ok2 := dm["Start"].(uint32)
					e, ok3 := dm["End"].(uint32)
					vx.Assert(ok1 && ok2 && ok3, "each document with its path and range")
					ls = append(ls, verifDoc1(p, s, e))
				}
				list(f, ls)
			}
		}
	}
	vx.Assert(len(want) == 0, "every fingerprint at or above the threshold")
	vx.Reach("checked")
}

func verifHex(s string) (f uint32, ok bool) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			f = f<<4 | uint32(c-'0')
		case c >= 'a' && c <= 'f':
			f = f<<4 | uint32(c-'a'+10)
		default:
			return 0, false
		}
	}
	return f, len(s) > 0 && len(s) <= 8
}

// verifJSON reads objects, lists, strings without escapes and small numbers.
type verifJSON struct {
	s   string
	bad bool
}

func (r *verifJSON) more() bool {
	for len(r.s) > 0 && (r.s[0] == ' ' || r.s[0] == '\n' || r.s[0] == '\t') {
		r.s = r.s[1:]
	}
	return len(r.s) > 0 && !r.bad
}

func (r *verifJSON) eat(c byte) bool {
	if r.more() && r.s[0] == c {
		r.s = r.s[1:]
		return true
	}
	return false
}

func (r *verifJSON) value() interface{} {
	switch {
	case r.eat('['):
		l := []interface{}{}
		for !r.eat(']') && !r.bad {
			l = append(l, r.value())
			r.eat(',')
		}
		return l
	case r.eat('{'):
		m := map[string]interface{}{}
		for !r.eat('}') && !r.bad {
			k, _ := r.value().(string)
			r.bad = r.bad || !r.eat(':')
			m[k] = r.value()
			r.eat(',')
		}
		return m
	case r.eat('"'):
		i := strings.IndexByte(r.s, '"')
		if i >= 0 {
			t := r.s[:i]
			r.s = r.s[i+1:]
			return t
		}
	case r.more() && r.s[0] >= '0' && r.s[0] <= '9':
		n := uint32(0)
		for len(r.s) > 0 && r.s[0] >= '0' && r.s[0] <= '9' {
			n = n*10 + uint32(r.s[0]-'0')
			r.s = r.s[1:]
		}
		return n
	case strings.HasPrefix(r.s, "null"):
		r.s = r.s[4:]
		return nil
	}
	r.bad = true
	return nil
}
