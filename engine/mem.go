package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"
)

type mapIter struct {
	m    Value
	keys []Value
}

type iterV struct {
	it    *mapIter
	str   Value
	isStr bool
	cell  uint32
}

// load reads *p of type in.typ.
func (ex *Exec) load(st *State, th *Thread, in *Instr, p Value) (Value, ctl) {
	if p.p == ptrMark {
		id, sl := p.obj(), p.slot()
		o := st.heap.get(id)
		if o == nil {
			ex.fail("load of freed object")
		}
		if st.race != nil {
			ex.raceAccess(st, th, id, sl, in.lay.slots, false)
		}
		if in.flag {
			if o.kind != kCells && o.kind != kBytes {
				ex.fail("aggregate load from %d", o.kind)
			}
			if sl+in.lay.slots > o.n {
				ex.fail("aggregate load out of object")
			}
			return aggV(st.readRange(id, sl, in.lay.slots)), cNext
		}
		if sl >= o.n {
			if in.lay.slots == 0 {
				return Value{}, cNext
			}
			ex.fail("load out of object (%d of %d)", sl, o.n)
		}
		return o.load(ex.tt, sl), cNext
	}
	switch q := p.p.(type) {
	case nil:
		ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
		return Value{}, cPanic
	case *SymPtr:
		if !in.flag && in.lay.w != 0 || in.lay.isBool {
			if q.count <= 1024 {
				if v, ok := ex.symLoad(st, q, in.lay); ok {
					return v, cNext
				}
			}
		}
		i := ex.concretize(st, q.idx, "index at "+ex.p.pos(in.raw))
		return ex.load(st, th, in, ptrV(q.obj, q.base+int(i)*q.stride+q.sub))
	}
	ex.fail("load through %T", p.p)
	return Value{}, cPanic
}

func (ex *Exec) symLoad(st *State, q *SymPtr, l *Layout) (Value, bool) {
	o := st.heap.get(q.obj)
	vals := make([]Value, q.count)
	for i := range vals {
		v := o.load(ex.tt, q.base+i*q.stride+q.sub)
		if v.p != nil && !v.isSym() {
			return Value{}, false
		}
		vals[i] = v
	}
	return ex.iteTable(vals, q.idx, l), true
}

// iteTable selects vals[idx] (idx is known to be in range), grouping equal runs.
func (ex *Exec) iteTable(vals []Value, idx *Term, l *Layout) Value {
	mk := func(v Value) *Term {
		if l.isBool {
			return ex.boolTerm(v)
		}
		return ex.term(v, l.w)
	}
	// binary decision over runs
	type run struct {
		lo int
		t  *Term
	}
	var runs []run
	for i, v := range vals {
		t := mk(v)
		if len(runs) > 0 && runs[len(runs)-1].t == t {
			continue
		}
		runs = append(runs, run{i, t})
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if b-a == 1 {
			return runs[a].t
		}
		m := (a + b) / 2
		c := ex.tt.Ult(idx, ex.tt.Const(idx.w, uint64(runs[m].lo)))
		return ex.tt.Ite(c, build(a, m), build(m, b))
	}
	return tv(build(0, len(runs)))
}

func (ex *Exec) store(st *State, th *Thread, in *Instr, p, v Value) ctl {
	if p.p == ptrMark {
		id, sl := p.obj(), p.slot()
		if st.race != nil {
			ex.raceAccess(st, th, id, sl, in.lay.slots, true)
		}
		if in.flag {
			if in.lay.slots == 0 {
				return cNext
			}
			for i, x := range v.agg() {
				st.storeSlot(id, sl+i, x)
			}
			return cNext
		}
		st.storeSlot(id, sl, v)
		return cNext
	}
	switch q := p.p.(type) {
	case nil:
		ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
		return cPanic
	case *SymPtr:
		if !in.flag && (in.lay.w != 0 || in.lay.isBool) && q.count <= 64 {
			o := st.heap.get(q.obj)
			ok := true
			for i := 0; i < q.count; i++ {
				old := o.load(ex.tt, q.base+i*q.stride+q.sub)
				if old.p != nil && !old.isSym() {
					ok = false
				}
			}
			if ok {
				for i := 0; i < q.count; i++ {
					sl := q.base + i*q.stride + q.sub
					old := st.loadSlot(q.obj, sl)
					c := ex.tt.Eq(q.idx, ex.tt.Const(q.idx.w, uint64(i)))
					var nv Value
					if in.lay.isBool {
						nv = tv(ex.tt.Ite(c, ex.boolTerm(v), ex.boolTerm(old)))
					} else {
						nv = tv(ex.tt.Ite(c, ex.term(v, in.lay.w), ex.term(old, in.lay.w)))
					}
					st.storeSlot(q.obj, sl, nv)
				}
				return cNext
			}
		}
		i := ex.concretize(st, q.idx, "index at "+ex.p.pos(in.raw))
		return ex.store(st, th, in, ptrV(q.obj, q.base+int(i)*q.stride+q.sub), v)
	}
	ex.fail("store through %T", p.p)
	return cPanic
}

// idx64 widens an index to 64 bits.
func (ex *Exec) idx64(v Value, l *Layout) Value {
	if t := v.term(); t != nil {
		if l.signed {
			return tv(ex.tt.SExt(t, 64))
		}
		return tv(ex.tt.ZExt(t, 64))
	}
	if l.signed {
		return Value{n: uint64(sext(v.n, l.w))}
	}
	return v
}

// boundsCheck: 0 <= i < n. Raises the Go panic on the failing side.
func (ex *Exec) boundsCheck(st *State, th *Thread, i Value, n int) bool {
	if t := i.term(); t != nil {
		if ex.branch(st, ex.tt.Ult(t, ex.tt.Const(64, uint64(n)))) {
			return true
		}
		ex.goPanicStr(st, th, fmt.Sprintf("index out of range with length %d", n))
		return false
	}
	if i.n < uint64(n) {
		return true
	}
	ex.goPanicStr(st, th, fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n))
	return false
}

func (ex *Exec) indexAddr(st *State, th *Thread, f *Frame, in *Instr) ctl {
	x := f.get(in.a)
	i := ex.idx64(f.get(in.b), in.lay2)
	var obj uint32
	var base, n int
	if in.flag {
		switch q := x.p.(type) {
		case nil:
			ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
			return cPanic
		case *SymPtr:
			k := ex.concretize(st, q.idx, "index at "+ex.p.pos(in.raw))
			obj, base, n = q.obj, q.base+int(k)*q.stride+q.sub, in.n
		default:
			obj, base, n = x.obj(), x.slot(), in.n
		}
	} else {
		s := x.slice()
		if s != nil {
			obj, base, n = s.obj, s.off, s.len
		}
	}
	if !ex.boundsCheck(st, th, i, n) {
		return cPanic
	}
	if t := i.term(); t != nil {
		f.regs[in.dst] = Value{p: &SymPtr{obj: obj, base: base, stride: in.lay.slots, count: n, idx: t}}
		return cNext
	}
	f.regs[in.dst] = ptrV(obj, base+int(i.n)*in.lay.slots)
	return cNext
}

func (ex *Exec) index(st *State, th *Thread, f *Frame, in *Instr) ctl {
	x := f.get(in.a)
	i := ex.idx64(f.get(in.b), in.lay2)
	if b, ok := in.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		n := strLen(x)
		if !ex.boundsCheck(st, th, i, n) {
			return cPanic
		}
		if t := i.term(); t != nil {
			if n <= 1024 {
				f.regs[in.dst] = ex.iteTable(strBytes(x), t, &Layout{w: 8})
				return cNext
			}
			i = Value{n: ex.concretize(st, t, "string index")}
		}
		f.regs[in.dst] = strByte(x, int(i.n))
		return cNext
	}
	a := x.agg()
	es := in.lay.slots
	n := 0
	if es > 0 {
		n = len(a) / es
	} else if at, ok := in.typ.Underlying().(*types.Array); ok {
		n = int(at.Len())
	}
	if !ex.boundsCheck(st, th, i, n) {
		return cPanic
	}
	var k int
	if t := i.term(); t != nil {
		if !in.flag && in.lay.w != 0 {
			ok := true
			for _, v := range a {
				if v.p != nil && !v.isSym() {
					ok = false
				}
			}
			if ok {
				f.regs[in.dst] = ex.iteTable(a, t, in.lay)
				return cNext
			}
		}
		k = int(ex.concretize(st, t, "array index"))
	} else {
		k = int(i.n)
	}
	if in.flag {
		f.regs[in.dst] = aggV(a[k*es : (k+1)*es : (k+1)*es])
	} else {
		f.regs[in.dst] = a[k]
	}
	return cNext
}

const maxAlloc = 1 << 28

func (ex *Exec) makeSlice(st *State, th *Thread, f *Frame, in *Instr) ctl {
	lv := ex.idx64(f.get(in.a), in.lay)
	cv := ex.idx64(f.get(in.b), in.lay2)
	lim := uint64(1) << 47
	if t := lv.term(); t != nil {
		if !ex.branch(st, ex.tt.Ult(t, ex.tt.Const(64, lim))) {
			ex.goPanicStr(st, th, "makeslice: len out of range")
			return cPanic
		}
		// a huge allocation is separated from small ones
		if !ex.branch(st, ex.tt.Ule(t, ex.tt.Const(64, maxAlloc))) {
			ex.hugeAlloc(st, th, "")
			return cPanic
		}
		lv = Value{n: ex.concretize(st, t, "slice length at "+ex.p.pos(in.raw))}
	}
	if t := cv.term(); t != nil {
		if !ex.branch(st, ex.tt.Ult(t, ex.tt.Const(64, lim))) {
			ex.goPanicStr(st, th, "makeslice: cap out of range")
			return cPanic
		}
		cv = Value{n: ex.concretize(st, t, "slice capacity at "+ex.p.pos(in.raw))}
	}
	l, c := int64(lv.n), int64(cv.n)
	if l < 0 || lv.n > lim {
		ex.goPanicStr(st, th, "makeslice: len out of range")
		return cPanic
	}
	if c < l || cv.n > lim {
		ex.goPanicStr(st, th, "makeslice: cap out of range")
		return cPanic
	}
	es := ex.p.layout(in.typ).slots
	if c*int64(es) > maxAlloc {
		ex.hugeAlloc(st, th, fmt.Sprint(c))
		return cPanic
	}
	id := st.allocElems(ex.p, in.typ, int(c))
	f.regs[in.dst] = Value{p: &SliceV{id, 0, int(l), int(c)}}
	return cNext
}

// hugeAlloc: the program asks for more memory than the input could justify.
func (ex *Exec) hugeAlloc(st *State, th *Thread, n string) {
	ex.goPanicStr(st, th, "allocation beyond the modelled memory limit")
}

func (ex *Exec) slice(st *State, th *Thread, f *Frame, in *Instr) ctl {
	x := f.get(in.a)
	get := func(r int32, k int) (Value, bool) {
		if r == noReg {
			return Value{}, false
		}
		w := uint8(in.args[k])
		return ex.idx64(f.get(r), &Layout{w: w, signed: in.args[k]&256 != 0}), true
	}
	lo, _ := get(in.b, 0)
	hi, hasHi := get(in.c, 1)
	mx, hasMax := get(in.d, 2)
	isStr := false
	var obj uint32
	var off, ln, cp int
	es := 1
	if in.flag {
		switch q := x.p.(type) {
		case nil:
			ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
			return cPanic
		case *SymPtr:
			k := ex.concretize(st, q.idx, "index at "+ex.p.pos(in.raw))
			obj, off = q.obj, q.base+int(k)*q.stride+q.sub
		default:
			obj, off = x.obj(), x.slot()
		}
		ln, cp = in.n, in.n
		es = in.lay.slots
	} else if _, ok := in.typ.Underlying().(*types.Slice); ok {
		es = in.lay.slots
		if s := x.slice(); s != nil {
			obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		}
	} else {
		isStr = true
		ln = strLen(x)
		cp = ln
	}
	if !hasHi {
		hi = intV(uint64(ln))
	}
	if !hasMax {
		mx = intV(uint64(cp))
	}
	bad := func() ctl {
		ex.goPanicStr(st, th, "slice bounds out of range")
		return cPanic
	}
	// 0 <= lo <= hi <= max <= cap
	chk := func(a Value, b Value) bool { // a <= b unsigned
		if !a.isSym() && !b.isSym() {
			return a.n <= b.n
		}
		return ex.branch(st, ex.tt.Ule(ex.term(a, 64), ex.term(b, 64)))
	}
	if hasMax && !chk(mx, intV(uint64(cp))) {
		return bad()
	}
	if !chk(hi, mx) {
		return bad()
	}
	if !chk(lo, hi) {
		return bad()
	}
	c3 := func(v Value, what string) int {
		if t := v.term(); t != nil {
			return int(ex.concretize(st, t, what+" at "+ex.p.pos(in.raw)))
		}
		return int(v.n)
	}
	l, h, m := c3(lo, "slice low bound"), c3(hi, "slice high bound"), c3(mx, "slice max bound")
	if isStr {
		f.regs[in.dst] = subStr(x, l, h)
		return cNext
	}
	if !in.flag && x.p == nil {
		f.regs[in.dst] = Value{}
		return cNext
	}
	f.regs[in.dst] = Value{p: &SliceV{obj, off + l*es, h - l, m - l}}
	return cNext
}

// sliceVals returns the slots of a slice value.
func (st *State) sliceVals(v Value, es int) []Value {
	s := v.slice()
	if s == nil || s.len == 0 {
		return nil
	}
	return st.readRange(s.obj, s.off, s.len*es)
}

func (st *State) bytesToStr(v Value) Value {
	s := v.slice()
	if s == nil || s.len == 0 {
		return Value{}
	}
	o := st.heap.get(s.obj)
	if o.kind == kBytes {
		out := make([]byte, s.len)
		sym := false
		i := 0
		for i < s.len {
			k := s.off + i
			pg := o.bp[k>>bpageBits]
			pk := k & (bpageSize - 1)
			m := bpageSize - pk
			if m > s.len-i {
				m = s.len - i
			}
			if pg != nil {
				copy(out[i:i+m], pg.b[pk:])
				if len(pg.sym) > 0 {
					if len(pg.sym) < m {
						for q := range pg.sym {
							if q >= pk && q < pk+m {
								sym = true
							}
						}
					} else {
						for q := pk; q < pk+m; q++ {
							if pg.sym[q] != nil {
								sym = true
								break
							}
						}
					}
				}
			}
			i += m
		}
		if !sym {
			return strV(string(out))
		}
	}
	return mkStr(st.readRange(s.obj, s.off, s.len))
}

func (st *State) strToBytes(v Value) Value {
	n := strLen(v)
	id := st.allocBytes(n)
	st.writeStr(id, 0, v)
	return Value{p: &SliceV{id, 0, n, n}}
}

func (st *State) writeStr(id uint32, off int, v Value) {
	if s, ok := v.p.(string); ok {
		o := st.wobj(id)
		if o.kind == kBytes {
			i := 0
			for i < len(s) {
				k := off + i
				pg := st.bpageW(o, k>>bpageBits)
				pk := k & (bpageSize - 1)
				m := copy(pg.b[pk:], s[i:])
				if pg.sym != nil {
					for q := pk; q < pk+m; q++ {
						delete(pg.sym, q)
					}
				}
				i += m
			}
			return
		}
	}
	for i, b := range strBytes(v) {
		st.storeSlot(id, off+i, b)
	}
}

func (ex *Exec) bytesOf(st *State, v Value) []Value { return st.sliceVals(v, 1) }

func (st *State) newBytes(b []Value) Value {
	id := st.allocBytes(len(b))
	for i, v := range b {
		st.storeSlot(id, i, v)
	}
	return Value{p: &SliceV{id, 0, len(b), len(b)}}
}

// ---- maps ----

// keyString encodes a concrete key; ok=false when symbolic.
func keyString(v Value) (string, bool) {
	switch q := v.p.(type) {
	case nil:
		return fmt.Sprintf("n%x", v.n), true
	case string:
		return "s" + q, true
	case *SymStr, *Term:
		return "", false
	case *IfaceV:
		s, ok := keyString(q.v)
		return fmt.Sprintf("i%s:%s", q.t, s), ok
	case *AggV:
		r := "a"
		for _, x := range q.v {
			s, ok := keyString(x)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s", len(s), s)
		}
		return r, true
	case *ptrTag:
		return fmt.Sprintf("p%x", v.n), true
	}
	if v.p == ptrMark {
		return fmt.Sprintf("p%x", v.n), true
	}
	return fmt.Sprintf("?%p", v.p), true
}

// canonical key: the empty string and zero share encodings only per type, and a map has one key type.
func (ex *Exec) mapFind(st *State, m *MapV, k Value) int {
	ks, conc := keyString(k)
	if conc {
		if k.p == nil {
			if b, ok := m.kt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				ks = "s"
			}
		}
		if i, ok := m.index[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	l := ex.p.layout(m.kt)
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c := keyString(m.keys[i]); c {
				continue
			}
		}
		e := ex.eqTerm(st, k, m.keys[i], m.kt, l)
		if e == ex.tt.F {
			continue
		}
		if ex.branch(st, e) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapKeyIdx(m *MapV, k Value) (string, bool) {
	ks, conc := keyString(k)
	if conc && k.p == nil {
		if b, ok := m.kt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			ks = "s"
		}
	}
	return ks, conc
}

func (ex *Exec) mapUpdate(st *State, th *Thread, f *Frame, in *Instr) ctl {
	x := f.get(in.a)
	if x.p == nil {
		ex.goPanicStr(st, th, "assignment to entry in nil map")
		return cPanic
	}
	k, v := f.get(in.b), f.get(in.c)
	if st.race != nil {
		ex.raceAccess(st, th, x.obj(), 0, 1, true)
	}
	i := ex.mapFind(st, st.heap.get(x.obj()).m, k)
	m := st.wobj(x.obj()).m
	ex.mapSet(m, i, k, v)
	return cNext
}

func (ex *Exec) mapSet(m *MapV, i int, k, v Value) {
	if i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
	if ks, conc := ex.mapKeyIdx(m, k); conc {
		m.index[ks] = len(m.keys) - 1
	} else {
		m.nsym++
	}
}

func (ex *Exec) mapDelete(m *MapV, i int) {
	if i < 0 {
		return
	}
	m.live[i] = false
	m.n--
	if ks, conc := ex.mapKeyIdx(m, m.keys[i]); conc {
		delete(m.index, ks)
	} else {
		m.nsym--
	}
}

func (ex *Exec) zero(t types.Type) Value {
	if isAggregate(t) {
		return aggV(make([]Value, ex.p.layout(t).slots))
	}
	return Value{}
}

func (ex *Exec) lookup(st *State, th *Thread, f *Frame, in *Instr) ctl {
	x := f.get(in.a)
	mt, isMap := in.typ.Underlying().(*types.Map)
	if !isMap {
		// string index
		i := ex.idx64(f.get(in.b), in.lay2)
		n := strLen(x)
		if !ex.boundsCheck(st, th, i, n) {
			return cPanic
		}
		if t := i.term(); t != nil {
			f.regs[in.dst] = ex.iteTable(strBytes(x), t, &Layout{w: 8})
			return cNext
		}
		f.regs[in.dst] = strByte(x, int(i.n))
		return cNext
	}
	var v Value
	ok := false
	if x.p != nil {
		if st.race != nil {
			ex.raceAccess(st, th, x.obj(), 0, 1, false)
		}
		m := st.heap.get(x.obj()).m
		if i := ex.mapFind(st, m, f.get(in.b)); i >= 0 {
			v, ok = m.vals[i], true
		}
	}
	if !ok {
		v = ex.zero(mt.Elem())
	}
	if in.flag {
		v = aggV([]Value{v, boolV(ok)})
	}
	f.regs[in.dst] = v
	return cNext
}

func (ex *Exec) next(st *State, th *Thread, f *Frame, in *Instr) ctl {
	it := f.get(in.a).p.(*iterV)
	pos := st.loadSlot(it.cell, 0)
	if !it.isStr {
		for int(pos.n) < len(it.it.keys) {
			k := it.it.keys[pos.n]
			pos.n++
			m := st.heap.get(it.it.m.obj()).m
			// still present?
			j := -1
			if ks, conc := ex.mapKeyIdx(m, k); conc {
				if q, ok := m.index[ks]; ok {
					j = q
				}
			} else {
				for q := range m.keys {
					if m.live[q] && m.keys[q].p == k.p {
						j = q
					}
				}
			}
			if j < 0 {
				continue
			}
			v := m.vals[j]
			st.storeSlot(it.cell, 0, pos)
			f.regs[in.dst] = aggV([]Value{boolV(true), k, v})
			return cNext
		}
		st.storeSlot(it.cell, 0, pos)
		tt := in.typ.(*types.Tuple)
		f.regs[in.dst] = aggV([]Value{boolV(false), ex.zeroOrNil(tt.At(1).Type()), ex.zeroOrNil(tt.At(2).Type())})
		return cNext
	}
	n := strLen(it.str)
	p := int(pos.n)
	if p >= n {
		f.regs[in.dst] = aggV([]Value{boolV(false), {}, {}})
		return cNext
	}
	if s, ok := it.str.p.(string); ok {
		r, w := utf8.DecodeRuneInString(s[p:])
		st.storeSlot(it.cell, 0, intV(uint64(p+w)))
		f.regs[in.dst] = aggV([]Value{boolV(true), intV(uint64(p)), intV(uint64(uint32(r)))})
		return cNext
	}
	r, w := ex.decodeRune(st, it.str.p.(*SymStr).b[p:])
	st.storeSlot(it.cell, 0, intV(uint64(p+w)))
	f.regs[in.dst] = aggV([]Value{boolV(true), intV(uint64(p)), r})
	return cNext
}

func (ex *Exec) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return ex.zero(t)
}

// decodeRune decodes one UTF-8 rune from bytes that may be symbolic, branching
// on the structure of the encoding (the same case split as utf8.DecodeRune).
func (ex *Exec) decodeRune(st *State, b []Value) (Value, int) {
	tt := ex.tt
	bt := func(i int) *Term { return ex.term(b[i], 8) }
	lt := func(t *Term, c uint64) bool {
		x := tt.Ult(t, tt.Const(8, c))
		if x.isConst() {
			return x.v == 1
		}
		return ex.branch(st, x)
	}
	bad := intV(0xFFFD)
	b0 := bt(0)
	if lt(b0, 0x80) {
		return tv(tt.ZExt(b0, 32)), 1
	}
	if lt(b0, 0xC2) {
		return bad, 1
	}
	in := func(t *Term, lo, hi uint64) bool { // lo <= t <= hi
		x := tt.And(tt.Ule(tt.Const(8, lo), t), tt.Ule(t, tt.Const(8, hi)))
		if x.isConst() {
			return x.v == 1
		}
		return ex.branch(st, x)
	}
	low6 := func(t *Term) *Term { return tt.Extract(t, 5, 0) }
	if lt(b0, 0xE0) {
		if len(b) < 2 || !in(bt(1), 0x80, 0xBF) {
			return bad, 1
		}
		return tv(tt.ZExt(tt.Concat(tt.Extract(b0, 4, 0), low6(bt(1))), 32)), 2
	}
	if lt(b0, 0xF0) {
		if len(b) < 3 {
			return bad, 1
		}
		e0 := tt.Eq(b0, tt.Const(8, 0xE0))
		ed := tt.Eq(b0, tt.Const(8, 0xED))
		t1 := bt(1)
		ok := tt.And(tt.And(tt.Ule(tt.Const(8, 0x80), t1), tt.Ule(t1, tt.Const(8, 0xBF))),
			tt.And(tt.Or(tt.Not(e0), tt.Ule(tt.Const(8, 0xA0), t1)), tt.Or(tt.Not(ed), tt.Ule(t1, tt.Const(8, 0x9F)))))
		if ok == tt.F || ok != tt.T && !ex.branch(st, ok) {
			return bad, 1
		}
		if !in(bt(2), 0x80, 0xBF) {
			return bad, 1
		}
		return tv(tt.ZExt(tt.Concat(tt.Concat(tt.Extract(b0, 3, 0), low6(bt(1))), low6(bt(2))), 32)), 3
	}
	if !lt(b0, 0xF5) {
		return bad, 1
	}
	if len(b) < 4 {
		return bad, 1
	}
	f0 := tt.Eq(b0, tt.Const(8, 0xF0))
	f4 := tt.Eq(b0, tt.Const(8, 0xF4))
	t1 := bt(1)
	ok := tt.And(tt.And(tt.Ule(tt.Const(8, 0x80), t1), tt.Ule(t1, tt.Const(8, 0xBF))),
		tt.And(tt.Or(tt.Not(f0), tt.Ule(tt.Const(8, 0x90), t1)), tt.Or(tt.Not(f4), tt.Ule(t1, tt.Const(8, 0x8F)))))
	if ok == tt.F || ok != tt.T && !ex.branch(st, ok) {
		return bad, 1
	}
	if !in(bt(2), 0x80, 0xBF) || !in(bt(3), 0x80, 0xBF) {
		return bad, 1
	}
	return tv(tt.ZExt(tt.Concat(tt.Concat(tt.Extract(b0, 2, 0), low6(bt(1))), tt.Concat(low6(bt(2)), low6(bt(3)))), 32)), 4
}

// ---- interfaces ----

func (p *Prog) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, it}
	if v, ok := p.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	p.implCache.Store(k, r)
	return r
}

func (p *Prog) method(t types.Type, m *types.Func) *Func {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if v, ok := p.methCache.Load(k); ok {
		return v.(*Func)
	}
	ssaMu.Lock()
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		ssaMu.Unlock()
		panic(engineError{fmt.Sprintf("no method %s on %s", m.Name(), t)})
	}
	sf := p.ssa.MethodValue(sel)
	ssaMu.Unlock()
	fn := p.fn(sf)
	p.methCache.Store(k, fn)
	return fn
}

func (ex *Exec) typeAssert(st *State, th *Thread, f *Frame, in *Instr) ctl {
	x := f.get(in.a)
	i := x.iface()
	ok := false
	var v Value
	if it, isI := in.typ.Underlying().(*types.Interface); isI {
		if i != nil && ex.p.implements(i.t, it) {
			ok = true
			v = x
		}
	} else {
		if i != nil && types.Identical(i.t, in.typ) {
			ok = true
			v = i.v
		} else {
			v = ex.zero(in.typ)
		}
	}
	if in.flag {
		f.regs[in.dst] = aggV([]Value{v, boolV(ok)})
		return cNext
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.t.String()
		}
		ex.goPanicStr(st, th, fmt.Sprintf("interface conversion: %s is %s, not %s", in.typ2, d, in.typ))
		return cPanic
	}
	f.regs[in.dst] = v
	return cNext
}
