package main

import (
	"fmt"
	"go/types"
)

// Value is one machine word of the interpreted program. Its meaning depends on
// the static type: concrete integers/bools/floats live in n (p == nil),
// symbolic ones are *Term in p. The zero Value is the Go zero value of every
// non-aggregate type.
type Value struct {
	p any
	n uint64
}

type ptrTag struct{}

var ptrMark any = &ptrTag{}

// SymPtr points to base+idx*stride (+sub) with symbolic idx < count.
type SymPtr struct {
	obj    uint32
	base   int
	stride int
	count  int
	sub    int
	idx    *Term // 64 bit
}

type SliceV struct {
	obj           uint32
	off, len, cap int // off in slots; len, cap in elements
}

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []Value }

type IfaceV struct {
	t types.Type
	v Value
}

// AggV: struct/array value (flattened slots) or tuple (one Value per component).
type AggV struct{ v []Value }

type FuncV struct {
	fn    *Func
	binds []Value
	// bound builtin-like native function
	native string
	data   any
}

type NativeV struct{ data any } // opaque engine-level value (reflect handles and such)

func intV(n uint64) Value { return Value{n: n} }
func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func ptrV(obj uint32, slot int) Value {
	return Value{p: ptrMark, n: uint64(obj)<<32 | uint64(uint32(slot))}
}
func (v Value) isNil() bool               { return v.p == nil }
func (v Value) isPtr() bool               { return v.p == ptrMark }
func (v Value) obj() uint32               { return uint32(v.n >> 32) }
func (v Value) slot() int                 { return int(uint32(v.n)) }
func (v Value) isSym() bool               { _, ok := v.p.(*Term); return ok }
func (v Value) term() *Term               { t, _ := v.p.(*Term); return t }
func (v Value) slice() *SliceV            { s, _ := v.p.(*SliceV); return s }
func (v Value) agg() []Value              { return v.p.(*AggV).v }
func (v Value) iface() *IfaceV            { i, _ := v.p.(*IfaceV); return i }
func aggV(vs []Value) Value               { return Value{p: &AggV{vs}} }
func mkIface(t types.Type, v Value) Value { return Value{p: &IfaceV{t, v}} }

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strByte(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func concreteStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// mkStr normalises a byte vector to a string Value.
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].p != nil {
			return Value{p: &SymStr{append([]Value(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return strV(string(bs))
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func subStr(v Value, lo, hi int) Value {
	switch s := v.p.(type) {
	case nil:
		return v
	case string:
		return strV(s[lo:hi])
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("subStr")
}

// ---- layout ----

type Layout struct {
	slots   int
	bytes   bool // elements are single bytes (array of uint8)
	fields  []int
	elem    int // slot size of array element
	scalar  bool
	w       uint8 // integer/bool width; bool = 1 in w with isBool
	isBool  bool
	signed  bool
	isFloat bool
	isStr   bool
}

func (p *Prog) layout(t types.Type) *Layout {
	if l, ok := p.layouts.Load(t); ok {
		return l.(*Layout)
	}
	l := p.mkLayout(t)
	p.layouts.Store(t, l)
	return l
}

func (p *Prog) mkLayout(t types.Type) *Layout {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		l := &Layout{slots: 1, scalar: true}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			l.isBool = true
		case types.Int8:
			l.w, l.signed = 8, true
		case types.Int16:
			l.w, l.signed = 16, true
		case types.Int32, types.UntypedRune:
			l.w, l.signed = 32, true
		case types.Int, types.Int64, types.UntypedInt:
			l.w, l.signed = 64, true
		case types.Uint8:
			l.w = 8
		case types.Uint16:
			l.w = 16
		case types.Uint32:
			l.w = 32
		case types.Uint, types.Uint64, types.Uintptr:
			l.w = 64
		case types.Float32:
			l.w, l.isFloat = 32, true
		case types.Float64, types.UntypedFloat:
			l.w, l.isFloat = 64, true
		case types.String, types.UntypedString:
			l.isStr = true
		}
		return l
	case *types.Struct:
		l := &Layout{}
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.slots)
			l.slots += p.layout(u.Field(i).Type()).slots
		}
		return l
	case *types.Array:
		e := p.layout(u.Elem())
		return &Layout{slots: int(u.Len()) * e.slots, elem: e.slots, bytes: isByteType(u.Elem())}
	case *types.Tuple:
		return &Layout{slots: u.Len()}
	}
	return &Layout{slots: 1, scalar: true}
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// ---- heap ----

const pageBits = 6
const pageSize = 1 << pageBits
const bpageBits = 12
const bpageSize = 1 << bpageBits

type cellPage struct {
	owner *tokenT
	v     [pageSize]Value
	hash  uint64
	hs    uint8 // 1: hash is valid
}
type bytePage struct {
	owner *tokenT
	b     []byte
	sym   map[int]*Term // index within page
	hash  uint64
	hs    uint8
}

type objKind uint8

const (
	kCells objKind = iota
	kBytes
	kMap
	kChan
)

type Object struct {
	owner *tokenT
	kind  objKind
	n     int // slots or bytes
	cells []*cellPage
	bp    []*bytePage
	small []Value // kCells with n <= pageSize
	m     *MapV
	ch    *ChanV
	typ   types.Type // for diagnostics (may be nil)
	sum   *objSum    // content hash, once the object cannot change any more
}

type MapV struct {
	keys  []Value
	vals  []Value
	live  []bool
	index map[string]int // concrete keys
	nsym  int            // number of live symbolic keys
	n     int
	kt    types.Type
}

type ChanV struct {
	cap    int
	buf    []Value
	closed bool
}

const heapPageBits = 8
const heapPageSize = 1 << heapPageBits

type heapPage struct {
	owner *tokenT
	o     [heapPageSize]*Object
}

type Heap struct {
	pages []*heapPage
	n     uint32
}

func (h *Heap) get(id uint32) *Object { return h.pages[id>>heapPageBits].o[id&(heapPageSize-1)] }

func (s *State) newObj(o *Object) uint32 {
	h := &s.heap
	if h.n == 0 {
		h.n = 1 // id 0 reserved
	}
	id := h.n
	h.n++
	pi := int(id >> heapPageBits)
	for pi >= len(h.pages) {
		h.pages = append(h.pages, &heapPage{owner: s.tok})
	}
	pg := h.pages[pi]
	if pg.owner != s.tok {
		np := *pg
		np.owner = s.tok
		h.pages[pi] = &np
		pg = &np
	}
	o.owner = s.tok
	pg.o[id&(heapPageSize-1)] = o
	return id
}

// wobj returns the object for writing (copy on write).
func (s *State) wobj(id uint32) *Object {
	h := &s.heap
	pi := int(id >> heapPageBits)
	pg := h.pages[pi]
	o := pg.o[id&(heapPageSize-1)]
	if o.owner == s.tok {
		return o
	}
	if pg.owner != s.tok {
		np := *pg
		np.owner = s.tok
		h.pages[pi] = &np
		pg = &np
	}
	no := *o
	no.owner = s.tok
	no.sum = nil
	switch o.kind {
	case kCells:
		if o.small != nil {
			no.small = append([]Value(nil), o.small...)
		} else {
			no.cells = append([]*cellPage(nil), o.cells...)
		}
	case kBytes:
		no.bp = append([]*bytePage(nil), o.bp...)
	case kMap:
		m := *o.m
		m.keys = append([]Value(nil), m.keys...)
		m.vals = append([]Value(nil), m.vals...)
		m.live = append([]bool(nil), m.live...)
		idx := make(map[string]int, len(m.index))
		for k, v := range m.index {
			idx[k] = v
		}
		m.index = idx
		no.m = &m
	case kChan:
		c := *o.ch
		c.buf = append([]Value(nil), c.buf...)
		no.ch = &c
	}
	pg.o[id&(heapPageSize-1)] = &no
	return &no
}

func (s *State) allocCells(n int) uint32 {
	o := &Object{kind: kCells, n: n}
	if n <= pageSize {
		o.small = make([]Value, n)
	} else {
		o.cells = make([]*cellPage, (n+pageSize-1)>>pageBits)
	}
	return s.newObj(o)
}

func (s *State) allocBytes(n int) uint32 {
	o := &Object{kind: kBytes, n: n, bp: make([]*bytePage, (n+bpageSize-1)>>bpageBits)}
	return s.newObj(o)
}

func (s *State) allocType(p *Prog, t types.Type) uint32 {
	l := p.layout(t)
	if l.bytes {
		return s.allocBytes(l.slots)
	}
	return s.allocCells(l.slots)
}

func (s *State) allocElems(p *Prog, elem types.Type, n int) uint32 {
	if isByteType(elem) {
		return s.allocBytes(n)
	}
	return s.allocCells(n * p.layout(elem).slots)
}

func (o *Object) load(tt *TermTable, i int) Value {
	if o.kind == kBytes {
		pg := o.bp[i>>bpageBits]
		if pg == nil {
			return Value{}
		}
		k := i & (bpageSize - 1)
		if pg.sym != nil {
			if t := pg.sym[k]; t != nil {
				return Value{p: t}
			}
		}
		if k >= len(pg.b) {
			return Value{}
		}
		return Value{n: uint64(pg.b[k])}
	}
	if o.small != nil {
		return o.small[i]
	}
	pg := o.cells[i>>pageBits]
	if pg == nil {
		return Value{}
	}
	return pg.v[i&(pageSize-1)]
}

func (s *State) loadSlot(id uint32, i int) Value { return s.heap.get(id).load(nil, i) }

func (s *State) bpageW(o *Object, pi int) *bytePage {
	pg := o.bp[pi]
	if pg == nil {
		sz := o.n - pi<<bpageBits
		if sz > bpageSize {
			sz = bpageSize
		}
		pg = &bytePage{owner: s.tok, b: make([]byte, sz)}
		o.bp[pi] = pg
	} else if pg.owner != s.tok {
		np := &bytePage{owner: s.tok, b: append([]byte(nil), pg.b...)}
		if pg.sym != nil {
			np.sym = make(map[int]*Term, len(pg.sym))
			for k, v := range pg.sym {
				np.sym[k] = v
			}
		}
		o.bp[pi] = np
		pg = np
	}
	return pg
}

func (s *State) storeSlot(id uint32, i int, v Value) {
	o := s.wobj(id)
	if o.kind == kBytes {
		pg := s.bpageW(o, i>>bpageBits)
		k := i & (bpageSize - 1)
		if t, ok := v.p.(*Term); ok {
			if t.isConst() {
				v = Value{n: t.v}
			} else {
				if pg.sym == nil {
					pg.sym = map[int]*Term{}
				}
				pg.sym[k] = t
				return
			}
		}
		if pg.sym != nil {
			delete(pg.sym, k)
		}
		pg.b[k] = byte(v.n)
		return
	}
	if o.small != nil {
		o.small[i] = v
		return
	}
	pg := o.cells[i>>pageBits]
	if pg == nil {
		pg = &cellPage{owner: s.tok}
		o.cells[i>>pageBits] = pg
	} else if pg.owner != s.tok {
		np := *pg
		np.owner = s.tok
		pg = &np
		o.cells[i>>pageBits] = pg
	}
	pg.hs = 0
	pg.v[i&(pageSize-1)] = v
}

// readRange/writeRange move n slots.
func (s *State) readRange(id uint32, off, n int) []Value {
	o := s.heap.get(id)
	r := make([]Value, n)
	if o.small != nil {
		copy(r, o.small[off:off+n])
		return r
	}
	for i := range r {
		r[i] = o.load(nil, off+i)
	}
	return r
}

// copyConcrete copies n bytes between byte objects page-wise where possible.
func (s *State) copySlots(dst uint32, doff int, src uint32, soff int, n int) {
	if n == 0 {
		return
	}
	so := s.heap.get(src)
	do := s.wobj(dst)
	so = s.heap.get(src)
	if so.kind == kBytes && do.kind == kBytes {
		if dst == src {
			vals := s.readRange(src, soff, n)
			for i, v := range vals {
				s.storeSlot(dst, doff+i, v)
			}
			return
		}
		for n > 0 {
			sp, dp := soff>>bpageBits, doff>>bpageBits
			sk, dk := soff&(bpageSize-1), doff&(bpageSize-1)
			m := n
			if bpageSize-sk < m {
				m = bpageSize - sk
			}
			if bpageSize-dk < m {
				m = bpageSize - dk
			}
			spg := so.bp[sp]
			dpg := s.bpageW(do, dp)
			if dpg.sym != nil {
				for i := 0; i < m; i++ {
					delete(dpg.sym, dk+i)
				}
			}
			if spg == nil {
				for i := 0; i < m; i++ {
					dpg.b[dk+i] = 0
				}
			} else {
				copy(dpg.b[dk:dk+m], spg.b[sk:sk+m])
				if len(spg.sym) > 0 {
					for i := 0; i < m; i++ {
						if t := spg.sym[sk+i]; t != nil {
							if dpg.sym == nil {
								dpg.sym = map[int]*Term{}
							}
							dpg.sym[dk+i] = t
						}
					}
				}
			}
			soff += m
			doff += m
			n -= m
		}
		return
	}
	vals := s.readRange(src, soff, n)
	for i, v := range vals {
		s.storeSlot(dst, doff+i, v)
	}
}
