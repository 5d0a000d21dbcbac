package dupi

import (
	"bytes"
	"strings"

	"github.com/go-air/dupi/internal/vx"
)

// VerifFnamesLong: P07 for long names and deep paths that differ in one byte.
func VerifFnamesLong() {
	sizes := []int{1, 127, 128, 254, 255, 256, 1023, 4095, 4096, 16384, 70000}
	n := sizes[vx.Choose("size", vx.Param("sizes", len(sizes)))]
	depth := []int{1, 2, 130, 300}[vx.Choose("depth", vx.Param("depths", 4))]
	if n*depth > 100000 {
		vx.Done()
	}
	x, y := vx.U8("x"), vx.U8("y")
	for _, b := range []byte{x, y} {
		vx.Assume(b != 0)
		vx.Assume(b != '/')
		vx.Assume(b != '.')
	}
	one := "/" + strings.Repeat("n", n)
	dir := strings.Repeat(one, depth)
	front := vx.Bool("front")
	path := func(b byte) string {
		if front {
			return "/" + string([]byte{b}) + dir
		}
		return dir + string([]byte{b})
	}
	px, py := path(x), path(y)
	s := newFnames()
	reload := func() {
		var buf bytes.Buffer
		vx.Assert(s.write(&buf) == nil, "writing succeeds")
		t, err := readFnames(&buf)
		vx.Assert(err == nil, "reading back succeeds")
		s = t
	}
	ix, err := s.addPath(px)
	vx.Assert(err == nil, "adding a path succeeds")
	if vx.Bool("reload") {
		reload()
	}
	id, err := s.addPath(dir)
	vx.Assert(err == nil, "adding a path succeeds")
	iy, err := s.addPath(py)
	vx.Assert(err == nil, "adding a path succeeds")
	vx.Assert((ix == iy) == (x == y), "equal paths and only those have equal ids")
	vx.Assert(id != ix && id != iy, "different paths have different ids")
	reload()
	vx.Assert(s.abs(ix) == px, "an id gives back its path")
	vx.Assert(s.abs(iy) == py, "an id gives back its path")
	vx.Assert(s.abs(id) == dir, "an id gives back its path")
	j, err := s.addPath(px)
	vx.Assert(err == nil && j == ix, "a known path keeps its id")
	vx.Reach("checked")
}
