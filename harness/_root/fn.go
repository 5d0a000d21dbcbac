package dupi

import (
	"bytes"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// verifPath gives a path of up to n arbitrary bytes under a choice of prefixes.
func verifPath(name string, n int) string {
	pre := ""
	switch vx.Choose(name+"pre", vx.Param("prefixes", 3)) {
	case 1:
		pre = "/"
	case 2:
		pre = "/long" + string(bytes.Repeat([]byte{'x'}, 196)) + "/b/../a"
	}
	b := vx.Bytes(name, vx.InRange(name+"len", 0, n))
	for _, c := range b {
		vx.Assume(c != 0)
	}
	return pre + string(b)
}

// VerifFnames: P07 for every pair of paths within the bound, before and after a reload.
func VerifFnames() {
	d := vx.TempDir()
	vx.Chdir(d)
	n := vx.Param("n", 2)
	p := verifPath("p", n)
	q := verifPath("q", vx.Param("m", 2))
	order := vx.Choose("order", 2)
	s := newFnames()
	ip, err := s.addPath(p)
	vx.Assert(err == nil, "adding a path succeeds")
	absp, err := filepath.Abs(p)
	vx.Assert(err == nil, "absolute path")
	absq, _ := filepath.Abs(q)
	vx.Assert(s.abs(ip) == absp, "an id gives back the cleaned absolute path")
	reload := func() {
		var buf bytes.Buffer
		vx.Assert(s.write(&buf) == nil, "writing succeeds")
		t, err := readFnames(&buf)
		vx.Assert(err == nil, "reading back succeeds")
		vx.Assert(t.abs(ip) == absp, "an id gives back its path after reloading")
		s = t
		vx.Reach("reloaded")
	}
	if order == 1 {
		reload()
	}
	iq, err := s.addPath(q)
	vx.Assert(err == nil, "adding a second path succeeds")
	if order == 0 {
		reload()
	}
	vx.Assert(s.abs(ip) == absp, "an id keeps its path")
	vx.Assert(s.abs(iq) == absq, "a second id gives back its path")
	vx.Assert((ip == iq) == (absp == absq), "equal paths and only those have equal ids")
	if absp == absq {
		vx.Reach("equal")
	}
	jp, err := s.addPath(absp)
	vx.Assert(err == nil && jp == ip, "a known path keeps its id")
	jq, err := s.addPath(q)
	vx.Assert(err == nil && jq == iq, "a known path keeps its id")
	r, err := s.addPath(absp + "/deeper")
	vx.Assert(err == nil && r != ip && r != iq, "a new path has a new id")
	want, _ := filepath.Abs(absp + "/deeper")
	vx.Assert(s.abs(r) == want, "a path below another one")
}
