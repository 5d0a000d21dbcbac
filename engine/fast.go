package main

import (
	"encoding/binary"
	"go/types"
)

// Fast paths for hot standard-library and file-model operations on concrete
// data. Each does exactly what interpreting the function would do, and declines
// (ok=false) whenever anything is symbolic or out of the ordinary.

type fastFn func(ex *Exec, st *State, args []Value) (Value, bool)

var fastFns = map[string]fastFn{
	"(*bufio.Reader).ReadByte":              fastReadByte,
	"encoding/binary.ReadVarint":            fastReadVarint,
	"encoding/binary.PutVarint":             fastPutVarint,
	"encoding/binary.PutUvarint":            fastPutUvarint,
	"(encoding/binary.bigEndian).PutUint32": fastPutUint32,
	"io.ReadFull":                           fastReadFull,
	"(*os.File).Write":                      fastWrite,
}

type bufFields struct{ buf, rd, r, w, err, lastByte, lastRune int }

func (p *Prog) fieldSlot(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	l := p.layout(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return l.fields[i]
		}
	}
	return -1
}

func (ex *Exec) bufReader() *bufFields {
	if ex.fastBuf == nil {
		b := &bufFields{}
		ex.fastBuf = b
		t := ex.p.typ("bufio", "Reader")
		if t == nil {
			b.buf = -1
			return b
		}
		b.buf, b.rd, b.r, b.w = ex.p.fieldSlot(t, "buf"), ex.p.fieldSlot(t, "rd"), ex.p.fieldSlot(t, "r"), ex.p.fieldSlot(t, "w")
		b.err, b.lastByte, b.lastRune = ex.p.fieldSlot(t, "err"), ex.p.fieldSlot(t, "lastByte"), ex.p.fieldSlot(t, "lastRuneSize")
		for _, x := range []int{b.rd, b.r, b.w, b.err, b.lastByte, b.lastRune} {
			if x < 0 {
				b.buf = -1
			}
		}
	}
	return ex.fastBuf
}

// bufState gives the buffered bytes of a *bufio.Reader.
func (ex *Exec) bufState(st *State, p Value) (f *bufFields, id uint32, base int, s *SliceV, r, w int, ok bool) {
	f = ex.bufReader()
	if f.buf < 0 || p.p != ptrMark {
		return
	}
	id, base = p.obj(), p.slot()
	o := st.heap.get(id)
	if o == nil || o.kind != kCells {
		return
	}
	rv, wv := o.load(ex.tt, base+f.r), o.load(ex.tt, base+f.w)
	bv := o.load(ex.tt, base+f.buf)
	if rv.p != nil || wv.p != nil {
		return
	}
	s, _ = bv.p.(*SliceV)
	if s == nil {
		return
	}
	return f, id, base, s, int(rv.n), int(wv.n), true
}

func (ex *Exec) bufDone(st *State, f *bufFields, id uint32, base, r int, last byte) {
	st.storeSlot(id, base+f.r, intV(uint64(r)))
	st.storeSlot(id, base+f.lastByte, intV(uint64(last)))
	st.storeSlot(id, base+f.lastRune, intV(^uint64(0)))
}

func fastReadByte(ex *Exec, st *State, a []Value) (Value, bool) {
	f, id, base, s, r, w, ok := ex.bufState(st, a[0])
	if !ok || r >= w {
		return Value{}, false
	}
	c := st.heap.get(s.obj).load(ex.tt, s.off+r)
	if c.p != nil {
		return Value{}, false
	}
	ex.bufDone(st, f, id, base, r+1, byte(c.n))
	return aggV([]Value{c, {}}), true
}

func (ex *Exec) isBufReader(v Value) (Value, bool) {
	i, _ := v.p.(*IfaceV)
	if i == nil {
		return Value{}, false
	}
	p, ok := i.t.(*types.Pointer)
	if !ok {
		return Value{}, false
	}
	if t := ex.p.typ("bufio", "Reader"); t == nil || !types.Identical(p.Elem(), t) {
		return Value{}, false
	}
	return i.v, true
}

func fastReadVarint(ex *Exec, st *State, a []Value) (Value, bool) {
	p, ok := ex.isBufReader(a[0])
	if !ok {
		return Value{}, false
	}
	f, id, base, s, r, w, ok := ex.bufState(st, p)
	if !ok {
		return Value{}, false
	}
	var buf [binary.MaxVarintLen64]byte
	o := st.heap.get(s.obj)
	for n := 0; n < 9; n++ {
		if r+n >= w {
			return Value{}, false
		}
		c := o.load(ex.tt, s.off+r+n)
		if c.p != nil {
			return Value{}, false
		}
		buf[n] = byte(c.n)
		if c.n < 0x80 {
			v, m := binary.Varint(buf[:n+1])
			if m != n+1 {
				return Value{}, false
			}
			ex.bufDone(st, f, id, base, r+n+1, byte(c.n))
			return aggV([]Value{intV(uint64(v)), {}}), true
		}
	}
	return Value{}, false
}

func fastReadFull(ex *Exec, st *State, a []Value) (Value, bool) {
	p, ok := ex.isBufReader(a[0])
	if !ok {
		return Value{}, false
	}
	d, _ := a[1].p.(*SliceV)
	if d == nil || d.len == 0 {
		return Value{}, false
	}
	f, id, base, s, r, w, ok := ex.bufState(st, p)
	if !ok || r+d.len > w || d.obj == s.obj {
		return Value{}, false
	}
	c := st.heap.get(s.obj).load(ex.tt, s.off+r+d.len-1)
	if c.p != nil {
		return Value{}, false
	}
	st.copySlots(d.obj, d.off, s.obj, s.off+r, d.len)
	ex.bufDone(st, f, id, base, r+d.len, byte(c.n))
	return aggV([]Value{intV(uint64(d.len)), {}}), true
}

func fastPut(ex *Exec, st *State, d Value, b []byte) bool {
	s, _ := d.p.(*SliceV)
	if s == nil || s.len < len(b) {
		return false
	}
	for i, c := range b {
		st.storeSlot(s.obj, s.off+i, intV(uint64(c)))
	}
	return true
}

func fastPutVarint(ex *Exec, st *State, a []Value) (Value, bool) {
	if a[1].p != nil {
		return Value{}, false
	}
	var buf [binary.MaxVarintLen64]byte
	n := binary.PutVarint(buf[:], int64(a[1].n))
	return intV(uint64(n)), fastPut(ex, st, a[0], buf[:n])
}

func fastPutUvarint(ex *Exec, st *State, a []Value) (Value, bool) {
	if a[1].p != nil {
		return Value{}, false
	}
	var buf [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(buf[:], a[1].n)
	return intV(uint64(n)), fastPut(ex, st, a[0], buf[:n])
}

func fastPutUint32(ex *Exec, st *State, a []Value) (Value, bool) {
	if a[2].p != nil {
		return Value{}, false
	}
	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], uint32(a[2].n))
	return Value{}, fastPut(ex, st, a[1], buf[:])
}

type fileFields struct {
	ok                    bool
	o                     int
	n, pos, closed, plain int
	data, full, left      int
	limit, dead, writes   uint32
}

// fastWrite appends to a file of the model (see FWrite in vx/fs.go).
func fastWrite(ex *Exec, st *State, a []Value) (Value, bool) {
	if ex.fastFile == nil {
		f := &fileFields{}
		ex.fastFile = f
		xf, of, in := ex.p.typ(vxPath, "xfile"), ex.p.typ(vxPath, "ofile"), ex.p.typ(vxPath, "inode")
		f.o = ex.p.fieldSlot(xf, "o")
		f.n, f.pos, f.closed, f.plain = ex.p.fieldSlot(of, "n"), ex.p.fieldSlot(of, "pos"), ex.p.fieldSlot(of, "closed"), ex.p.fieldSlot(of, "plain")
		f.data, f.full = ex.p.fieldSlot(in, "data"), ex.p.fieldSlot(in, "full")
		f.left = ex.p.fieldSlot(in, "left")
		sp := ex.p.pkgs[vxPath]
		f.limit, f.dead, f.writes = ex.p.globals[sp.Var("fsLimit")], ex.p.globals[sp.Var("fsDead")], ex.p.globals[sp.Var("FsWrites")]
		f.ok = f.o >= 0 && f.n >= 0 && f.pos >= 0 && f.closed >= 0 && f.plain >= 0 && f.data >= 0 && f.full >= 0 && f.left >= 0
	}
	f := ex.fastFile
	no := Value{}
	if !f.ok || a[0].p != ptrMark {
		return no, false
	}
	b, _ := a[1].p.(*SliceV)
	if b == nil || b.len == 0 || b.len > 64 {
		return no, false
	}
	ld := func(id uint32, sl int) Value { return st.heap.get(id).load(ex.tt, sl) }
	o := ld(a[0].obj(), a[0].slot()+f.o)
	if o.p != ptrMark {
		return no, false
	}
	lim, dead := ld(f.limit, 0), ld(f.dead, 0)
	if lim.p != nil || int64(lim.n) >= 0 || dead.p != nil || dead.n != 0 {
		return no, false
	}
	oid, os := o.obj(), o.slot()
	cl, pl, pos, n := ld(oid, os+f.closed), ld(oid, os+f.plain), ld(oid, os+f.pos), ld(oid, os+f.n)
	if cl.p != nil || cl.n != 0 || pl.p != nil || pl.n == 0 || pos.p != nil || n.p != ptrMark {
		return no, false
	}
	full := ld(n.obj(), n.slot()+f.full)
	left := ld(n.obj(), n.slot()+f.left)
	if left.p != nil || left.n == 1 {
		return no, false
	}
	d, _ := ld(n.obj(), n.slot()+f.data).p.(*SliceV)
	if full.p != nil || full.n != 0 || d == nil || d.len != int(pos.n) || d.len+b.len > d.cap || d.obj == b.obj {
		return no, false
	}
	w := ld(f.writes, 0)
	if w.p != nil {
		return no, false
	}
	if left.n > 1 {
		st.storeSlot(n.obj(), n.slot()+f.left, intV(left.n-1))
	}
	st.copySlots(d.obj, d.off+d.len, b.obj, b.off, b.len)
	st.storeSlot(n.obj(), n.slot()+f.data, Value{p: &SliceV{d.obj, d.off, d.len + b.len, d.cap}})
	st.storeSlot(oid, os+f.pos, intV(pos.n+uint64(b.len)))
	st.storeSlot(f.writes, 0, intV(w.n+1))
	return aggV([]Value{intV(uint64(b.len)), {}}), true
}
