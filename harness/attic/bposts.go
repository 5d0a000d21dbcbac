package attic

import (
	"github.com/go-air/dupi/attic/ibloom"
	"github.com/go-air/dupi/internal/vx"
)

func verifSet(f ibloom.Filter) *bposts {
	b := &bposts{}
	b.Bloomer = f
	b.Set = f.Set()
	return b
}

// VerifBposts: P22 set operations.
func VerifBposts() {
	k := vx.InRange("k", 1, vx.Param("k", 2))
	mb := vx.Param("mb", 0)
	if mb == 0 {
		mb = vx.InRange("mb", 1, 2)
	}
	f := ibloom.NewFnv32(mb, k)
	a, b := verifSet(f), verifSet(f)
	vx.Assert(a.IsZero(), "a filter without elements is zero")
	vx.Assert(len(a.Ones(nil)) == 0, "a filter without elements has no ones")
	na, nb := vx.InRange("na", 0, vx.Param("adds", 2)), vx.InRange("nb", 0, 1)
	var va, vb []uint32
	for i := 0; i < na; i++ {
		v := vx.U32("a")
		vx.Assert(a.AddPost(v) == nil, "add")
		va = append(va, v)
	}
	both := vx.U32("both")
	withBoth := vx.Bool("withboth")
	if withBoth {
		a.AddPost(both)
	}
	for i := 0; i < nb; i++ {
		v := vx.U32("b")
		vx.Assert(b.AddPost(v) == nil, "add")
		vb = append(vb, v)
	}
	if withBoth {
		b.AddPost(both)
	}
	if na > 0 || withBoth {
		vx.Assert(!a.IsZero(), "a filter with elements is not zero")
	}
	for _, v := range va {
		vx.Assert(a.HasPost(v), "an added value is present")
	}
	sa, sb := append([]byte(nil), a.Set...), append([]byte(nil), b.Set...)
	if vx.Bool("union") {
		r := a.Union(b)
		for _, v := range va {
			vx.Assert(r.HasPost(v), "a union keeps the values of the left side")
		}
		for _, v := range vb {
			vx.Assert(r.HasPost(v), "a union keeps the values of the right side")
			vx.Assert(b.HasPost(v), "a union does not change the other side")
		}
		for i := range r.Set {
			vx.Assert(r.Set[i] == sa[i]|sb[i], "a union is the bitwise or")
		}
		w := vx.U32("after")
		r.AddPost(w)
		vx.Assert(r.HasPost(w), "adding after a union")
		for _, v := range vb {
			vx.Assert(r.HasPost(v), "adding after a union keeps the others")
		}
		vx.Reach("union")
		return
	}
	r := a.Intersect(b)
	if withBoth {
		vx.Assert(r.HasPost(both), "an intersection keeps values added to both")
		vx.Reach("both")
	}
	for i := range r.Set {
		vx.Assert(r.Set[i] == sa[i]&sb[i], "an intersection is the bitwise and")
		vx.Assert(b.Set[i] == sb[i], "an intersection does not change the other side")
	}
	if na == 0 && !withBoth {
		vx.Assert(r.IsZero(), "an intersection with an empty filter is zero")
	}
	w := vx.U32("after")
	vx.Assert(r.AddPost(w) == nil, "add")
	vx.Assert(r.HasPost(w), "adding after an intersection")
	if withBoth {
		vx.Assert(r.HasPost(both), "adding after an intersection keeps the others")
	}
	vx.Reach("intersection")
}

// VerifBpostsOnes: Ones lists exactly the set bits.
func VerifBpostsOnes() {
	f := ibloom.NewFnv32(vx.Param("mb", 2), 1)
	a := verifSet(f)
	vx.Assert(bpostOnes(f).HasPost(vx.U32("any")), "the full filter has everything")
	d := vx.Bytes("s", len(a.Set))
	for _, x := range d {
		vx.Assume(x&byte(vx.Param("zero", 0)) == 0)
	}
	copy(a.Set, d)
	ones := a.Ones(nil)
	k := 0
	zero := true
	for i := 0; i < len(d)*8; i++ {
		if d[i/8]>>uint(i%8)&1 != 0 {
			zero = false
			vx.Assert(k < len(ones) && ones[k] == i, "Ones lists the set bits in order")
			k++
		}
	}
	vx.Assert(k == len(ones), "Ones lists nothing else")
	vx.Assert(a.IsZero() == zero, "IsZero tells whether no bit is set")
}
