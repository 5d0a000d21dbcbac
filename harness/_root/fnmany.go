package dupi

import (
	"bytes"
	"fmt"

	"github.com/go-air/dupi/internal/vx"
)

// VerifFnamesMany: P07 for tables with more entries than one varint byte counts.
func VerifFnamesMany() {
	s := newFnames()
	n := vx.Param("n", 140)
	c := vx.U8("c")
	vx.Assume(c != 0 && c != '/' && c != '.')
	ids := make([]uint32, n)
	path := func(i int) string {
		switch i % 3 {
		case 0:
			return fmt.Sprintf("/d%d/f", i)
		case 1:
			return fmt.Sprintf("/common/%c/e%d", rune(c&0x7f|1), i)
		}
		return fmt.Sprintf("/d%d/g", i-2)
	}
	if vx.InEngine() {
		vx.Assume(c < 0x80 && c&1 == 1)
	}
	for i := range ids {
		if i == n/2 {
			var buf bytes.Buffer
			vx.Assert(s.write(&buf) == nil, "write")
			t, err := readFnames(&buf)
			vx.Assert(err == nil, "read")
			s = t
		}
		id, err := s.addPath(path(i))
		vx.Assert(err == nil, "adding a path succeeds")
		ids[i] = id
	}
	var buf bytes.Buffer
	vx.Assert(s.write(&buf) == nil, "write")
	t, err := readFnames(&buf)
	vx.Assert(err == nil, "read")
	for i, id := range ids {
		vx.Assert(t.abs(id) == path(i), "an id gives back its path")
		j, err := t.addPath(path(i))
		vx.Assert(err == nil && j == id, "a known path keeps its id")
	}
}
