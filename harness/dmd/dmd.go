package dmd

import (
	"os"
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

type verifRec struct{ id, a, b, c uint32 }

// VerifDmd: P06, P18 (document count), P05 for every field value, flush rate and session split.
func VerifDmd() {
	root := vx.TempDir()
	n := vx.InRange("n", 0, vx.Param("n", 5))
	var recs []verifRec
	var ad *Adder
	var err error
	fr := vx.InRange("fr", 1, vx.Param("fr", 3))
	ad, err = NewAdder(root, fr)
	vx.Assert(err == nil, "create")
	vx.Assert(ad.Last() == 0, "no document before the first")
	for i := 0; i < n; i++ {
		if i > 0 && vx.Bool("reopen") {
			vx.Assert(ad.Close() == nil, "close")
			ad, err = NewAdder(root, fr)
			vx.Assert(err == nil, "reopen")
			vx.Assert(ad.Last() == uint32(i), "Last() after reopening is the last id")
			vx.Reach("reopened")
		}
		a, b, c := vx.U32("a"), vx.U32("b"), vx.U32("c")
		id, err := ad.Add(a, b, c)
		vx.Assert(err == nil, "add")
		vx.Assert(id == uint32(i)+1, "ids are consecutive from 1")
		vx.Assert(ad.Last() == id, "Last() is the id just given")
		recs = append(recs, verifRec{id, a, b, c})
	}
	vx.Assert(ad.Close() == nil, "close")
	t, err := New(root)
	vx.Assert(err == nil, "open")
	nd, err := t.NumDocs()
	vx.Assert(err == nil && nd == uint64(n), "NumDocs is the number of added records")
	for i := len(recs) - 1; i >= 0; i-- {
		r := recs[i]
		a, b, c, err := t.Lookup(r.id)
		vx.Assert(err == nil, "lookup")
		vx.Assert(a == r.a && b == r.b && c == r.c, "lookup returns the recorded values")
	}
	for _, r := range recs {
		a, b, c, err := t.Lookup(r.id)
		vx.Assert(err == nil, "lookup again")
		vx.Assert(a == r.a && b == r.b && c == r.c, "lookup in any order returns the recorded values")
	}
	bad := vx.U32("bad")
	vx.Assume(bad > uint32(n))
	_, _, _, err = t.Lookup(bad)
	vx.Assert(err != nil, "an id never recorded is an error")
	vx.Assert(t.Close() == nil, "close reader")
	if n > fr {
		vx.Reach("flushed")
	}
}

// VerifDmdFar: the record of id d starts at byte 12*d for every 32-bit d.
func VerifDmdFar() {
	root := vx.TempDir()
	d := vx.U32("d")
	lim := uint32(vx.Param("max", 0xffffffff))
	vx.Assume(d >= 1 && d <= lim)
	dat := vx.Bytes("dat", 12)
	trunc := vx.Bool("trunc")
	size := int64(d)*12 + 12
	if trunc {
		size -= 1 + int64(vx.InRange("cut", 0, 11))
	}
	if trunc {
		vx.SparseFile(filepath.Join(root, "dmd"), size, int64(d)*12-12, dat)
	} else {
		vx.SparseFile(filepath.Join(root, "dmd"), size, int64(d)*12, dat)
	}
	t, err := New(root)
	vx.Assert(err == nil, "open")
	a, b, c, err := t.Lookup(d)
	if trunc {
		vx.Assert(err != nil, "an incomplete record is an error")
		vx.Reach("truncated")
		return
	}
	vx.Assert(err == nil, "lookup")
	be := func(p []byte) uint32 {
		return uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
	}
	vx.Assert(a == be(dat[0:4]) && b == be(dat[4:8]) && c == be(dat[8:12]), "record d is at byte 12*d")
	nd, err := t.NumDocs()
	vx.Assert(err == nil && nd == uint64(d), "NumDocs counts up to the last record")
	if d != 0xffffffff {
		ad, err := NewAdder(root, 2)
		vx.Assert(err == nil, "append")
		vx.Assert(ad.Last() == d, "Last() of an existing table")
		id, err := ad.Add(1, 2, 3)
		vx.Assert(err == nil && id == d+1, "the next id follows the last")
		vx.Reach("append")
	}
	t.Close()
}

// VerifDmdMissing: reading a missing table is an error.
func VerifDmdMissing() {
	root := vx.TempDir()
	_, err := New(root)
	vx.Assert(err != nil, "opening a missing table is an error")
	n := vx.InRange("size", 0, 25)
	vx.WriteFile(filepath.Join(root, "dmd"), vx.Bytes("d", n))
	t, err := New(root)
	vx.Assert(err == nil, "open")
	id := vx.U32("id")
	_, _, _, err = t.Lookup(id)
	vx.Assert((err == nil) == (uint64(id)*12+12 <= uint64(n)), "lookup succeeds exactly for whole records")
	_, err = t.NumDocs()
	vx.Assert(err == nil, "NumDocs")
	t.Close()
	os.Remove(filepath.Join(root, "dmd"))
}
