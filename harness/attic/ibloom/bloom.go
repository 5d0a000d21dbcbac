package ibloom

import "github.com/go-air/dupi/internal/vx"

// VerifBloom: P22 for every value, every prior content, several sizes and hash counts.
func VerifBloom() {
	k := vx.InRange("k", 0, vx.Param("k", 3))
	mb := vx.Param("mb", 0)
	if mb == 0 {
		mb = 1 << uint(vx.InRange("mb", 0, vx.Param("logmb", 3)))
	}
	var f Filter
	if vx.Bool("viaconfig") {
		var err error
		f, err = FromConfig(&Config{Name: "fnv32", M: mb * 8, K: k})
		vx.Assert(err == nil, "fnv32 filter")
	} else {
		f = NewFnv32(mb, k)
	}
	vx.Assert(f.K() == k && f.M() == mb*8, "K and M are the configured sizes")
	c := f.Config()
	vx.Assert(c.K == k && c.M == mb*8 && c.Name == "fnv32", "Config gives back the sizes")
	s := f.Set()
	vx.Assert(len(s)*8 == f.M(), "a set has M bits")
	for _, b := range s {
		vx.Assert(b == 0, "a new set is empty")
	}
	prior := vx.Bytes("prior", mb)
	copy(s, prior)
	u, v := vx.U32("u"), vx.U32("v")
	bits := make([]uint32, k)
	f.PutOnes(bits, u)
	n := 0
	all := f.Ones(u, func(i int) bool {
		vx.Assert(i >= 0 && i < mb*8, "bit positions lie within the filter")
		vx.Assert(n < k && bits[n] == uint32(i), "Ones and PutOnes agree")
		n++
		return true
	})
	vx.Assert(all && n == k, "Ones visits k positions")
	if k > 0 {
		n = 0
		all = f.Ones(u, func(i int) bool { n++; return false })
		vx.Assert(!all && n == 1, "Ones stops when asked")
	}
	f.Add(s, u)
	vx.Assert(f.Has(s, u), "an added value is present")
	f.Add(s, v)
	vx.Assert(f.Has(s, u) && f.Has(s, v), "added values stay present whatever else is added")
	for i := range s {
		vx.Assert(s[i]&prior[i] == prior[i], "adding only sets bits")
	}
	// only the reported positions are set
	want := append([]byte(nil), prior...)
	set := func(i int) bool { want[i/8] |= 1 << uint(i%8); return true }
	f.Ones(u, set)
	f.Ones(v, set)
	for i := range s {
		vx.Assert(s[i] == want[i], "adding sets exactly the positions of the value")
	}
	if k > 1 {
		vx.Reach("k2")
	}
}

// VerifBloomName: unknown filters are refused.
func VerifBloomName() {
	n := vx.InRange("len", 0, 5)
	name := string(vx.Bytes("name", n))
	vx.Assume(name != "fnv32")
	f, err := FromConfig(&Config{Name: name, M: 8, K: 1})
	vx.Assert(f == nil && err != nil, "unknown filter names are refused")
}
