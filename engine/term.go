package main

// Terms: hash-consed bit-vector (width 1..64) and boolean (width 0) expressions,
// with local simplification. A TermTable belongs to one job (one goroutine).

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // v = lo, width = w
	OConcat
	OIte
	OUF // name, args a,b
)

var opSMT = [...]string{OConst: "?", OVar: "?", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OIte: "ite"}

type Term struct {
	op      Op
	w       uint8 // 0: bool
	a, b, c *Term
	v       uint64 // const value; extract lo
	name    string // var / uf
	id      uint32
	smtDef  bool // defined in the solver
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	v       uint64
	name    string
}

type TermTable struct {
	tab   map[tkey]*Term
	next  uint32
	T, F  *Term
	vars  []*Term
	small [65][]*Term
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: make(map[tkey]*Term)}
	t.T = t.mk(tkey{op: OConst, w: 0, v: 1})
	t.F = t.mk(tkey{op: OConst, w: 0, v: 0})
	return t
}

func (t *TermTable) mk(k tkey) *Term {
	if r, ok := t.tab[k]; ok {
		return r
	}
	t.next++
	r := &Term{op: k.op, w: k.w, a: k.a, b: k.b, c: k.c, v: k.v, name: k.name, id: t.next}
	t.tab[k] = r
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (t *TermTable) Const(w uint8, v uint64) *Term {
	return t.mk(tkey{op: OConst, w: w, v: v & mask(w)})
}
func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}
func (t *TermTable) Var(name string, w uint8) *Term {
	k := tkey{op: OVar, w: w, name: name}
	if r, ok := t.tab[k]; ok {
		return r
	}
	r := t.mk(k)
	t.vars = append(t.vars, r)
	return r
}

func (x *Term) isConst() bool { return x.op == OConst }

func (t *TermTable) Not(a *Term) *Term {
	if a == t.T {
		return t.F
	}
	if a == t.F {
		return t.T
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return t.mk(tkey{op: OUle, a: a.b, b: a.a})
	case OUle:
		return t.mk(tkey{op: OUlt, a: a.b, b: a.a})
	case OSlt:
		return t.mk(tkey{op: OSle, a: a.b, b: a.a})
	case OSle:
		return t.mk(tkey{op: OSlt, a: a.b, b: a.a})
	}
	return t.mk(tkey{op: ONot, a: a})
}

func (t *TermTable) And(a, b *Term) *Term {
	if a == t.F || b == t.F {
		return t.F
	}
	if a == t.T || a == b {
		return b
	}
	if b == t.T {
		return a
	}
	if t.Not(a) == b {
		return t.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(tkey{op: OAnd, a: a, b: b})
}

func (t *TermTable) Or(a, b *Term) *Term {
	if a == t.T || b == t.T {
		return t.T
	}
	if a == t.F || a == b {
		return b
	}
	if b == t.F {
		return a
	}
	if t.Not(a) == b {
		return t.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(tkey{op: OOr, a: a, b: b})
}

func (t *TermTable) Ite(c, a, b *Term) *Term {
	if c == t.T || a == b {
		return a
	}
	if c == t.F {
		return b
	}
	if c.op == ONot {
		c, a, b = c.a, b, a
	}
	if a.w == 0 {
		if a == t.T {
			return t.Or(c, b)
		}
		if a == t.F {
			return t.And(t.Not(c), b)
		}
		if b == t.T {
			return t.Or(t.Not(c), a)
		}
		if b == t.F {
			return t.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return t.mk(tkey{op: OIte, w: a.w, a: c, b: a, c: b})
}

func (t *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return t.T
	}
	if a.isConst() && b.isConst() {
		return t.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == t.T {
			return a
		}
		if b == t.F {
			return t.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if a.b.isConst() && a.c.isConst() || a.b.isConst() && a.b != b || a.c.isConst() && a.c != b {
				return t.Ite(a.a, t.Eq(a.b, b), t.Eq(a.c, b))
			}
		case OZExt:
			if b.v > mask(a.a.w) {
				return t.F
			}
			return t.Eq(a.a, t.Const(a.a.w, b.v))
		case OAdd:
			if a.b.isConst() {
				return t.Eq(a.a, t.Const(a.w, b.v-a.b.v))
			}
		case OBXor:
			if a.b.isConst() {
				return t.Eq(a.a, t.Const(a.w, b.v^a.b.v))
			}
		case OConcat:
			lw := a.b.w
			return t.And(t.Eq(a.a, t.Const(a.a.w, b.v>>lw)), t.Eq(a.b, t.Const(lw, b.v)))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return t.Eq(a.a, b.a)
	}
	// x + c == y + c etc. with shared operand
	if a.op == OAdd && b.op == OAdd {
		if a.a == b.a {
			return t.Eq(a.b, b.b)
		}
		if a.b == b.b {
			return t.Eq(a.a, b.a)
		}
		if a.a == b.b {
			return t.Eq(a.b, b.a)
		}
		if a.b == b.a {
			return t.Eq(a.a, b.b)
		}
	}
	if a.op == OBXor && b.op == OBXor {
		if a.a == b.a {
			return t.Eq(a.b, b.b)
		}
		if a.b == b.b {
			return t.Eq(a.a, b.a)
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return t.mk(tkey{op: OEq, a: a, b: b})
}

// unsigned upper bound, cheap
func (x *Term) umax() uint64 {
	switch x.op {
	case OConst:
		return x.v
	case OZExt:
		return x.a.umax()
	case OBAnd:
		if x.b.isConst() {
			return x.b.v
		}
	case OURem:
		if x.b.isConst() && x.b.v > 0 {
			m := x.a.umax()
			if m < x.b.v-1 {
				return m
			}
			return x.b.v - 1
		}
	case OUDiv:
		if x.b.isConst() && x.b.v > 0 {
			return x.a.umax() / x.b.v
		}
	case OLShr:
		if x.b.isConst() && x.b.v < 64 {
			return x.a.umax() >> x.b.v
		}
	case OIte:
		p, q := x.b.umax(), x.c.umax()
		if p > q {
			return p
		}
		return q
	case OAdd:
		p, q := x.a.umax(), x.b.umax()
		if s := p + q; s >= p && s <= mask(x.w) {
			return s
		}
	case OMul:
		p, q := x.a.umax(), x.b.umax()
		hi, lo := bits.Mul64(p, q)
		if hi == 0 && lo <= mask(x.w) {
			return lo
		}
	case OShl:
		if x.b.isConst() && x.b.v < 64 {
			p := x.a.umax()
			if p<<x.b.v>>x.b.v == p && p<<x.b.v <= mask(x.w) {
				return p << x.b.v
			}
		}
	case OBOr, OBXor:
		m := x.a.umax() | x.b.umax()
		return 1<<uint(bits.Len64(m)) - 1
	case OConcat:
		return x.a.umax()<<x.b.w | x.b.umax()
	}
	return mask(x.w)
}

func (t *TermTable) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Bool(a.v < b.v)
	}
	if a == b {
		return t.F
	}
	if b.isConst() {
		if b.v == 0 {
			return t.F
		}
		if a.umax() < b.v {
			return t.T
		}
		if b.v == 1 {
			return t.Eq(a, t.Const(a.w, 0))
		}
		if a.op == OZExt {
			return t.Ult(a.a, t.Const(a.a.w, b.v))
		}
	}
	if a.isConst() {
		if a.v >= b.umax() {
			return t.F
		}
		if a.v == 0 {
			return t.Not(t.Eq(b, a))
		}
		if b.op == OZExt {
			return t.Ult(t.Const(b.a.w, a.v), b.a)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return t.Ult(a.a, b.a)
	}
	if x := t.iteCmp(a, b, t.Ult); x != nil {
		return x
	}
	return t.mk(tkey{op: OUlt, a: a, b: b})
}

func (t *TermTable) iteCmp(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op == OIte && b.isConst() && a.b.isConst() && a.c.isConst() {
		return t.Ite(a.a, f(a.b, b), f(a.c, b))
	}
	if b.op == OIte && a.isConst() && b.b.isConst() && b.c.isConst() {
		return t.Ite(b.a, f(a, b.b), f(a, b.c))
	}
	return nil
}

func (t *TermTable) Ule(a, b *Term) *Term { return t.Not(t.Ult(b, a)) }

func (t *TermTable) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Bool(sext(a.v, a.w) < sext(b.v, b.w))
	}
	if a == b {
		return t.F
	}
	// both provably non-negative: unsigned
	half := mask(a.w) >> 1
	if a.umax() <= half && b.umax() <= half {
		return t.Ult(a, b)
	}
	if b.isConst() && b.v == 0 && a.umax() <= half {
		return t.F
	}
	if a.isConst() && sext(a.v, a.w) < 0 && b.umax() <= half {
		return t.T
	}
	if b.isConst() && sext(b.v, b.w) < 0 && a.umax() <= half {
		return t.F
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return t.Slt(a.a, b.a)
	}
	if x := t.iteCmp(a, b, t.Slt); x != nil {
		return x
	}
	return t.mk(tkey{op: OSlt, a: a, b: b})
}
func (t *TermTable) Sle(a, b *Term) *Term { return t.Not(t.Slt(b, a)) }

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	var r uint64
	switch op {
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OUDiv:
		if y == 0 {
			return mask(w), true
		}
		r = x / y
	case OURem:
		if y == 0 {
			return x, true
		}
		r = x % y
	case OSDiv:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			r = uint64(-sx)
		} else {
			r = uint64(sx / sy)
		}
	case OSRem:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			r = 0
		} else {
			r = uint64(sx % sy)
		}
	case OBAnd:
		r = x & y
	case OBOr:
		r = x | y
	case OBXor:
		r = x ^ y
	case OShl:
		if y >= 64 {
			r = 0
		} else {
			r = x << y
		}
	case OLShr:
		if y >= 64 {
			r = 0
		} else {
			r = x >> y
		}
	case OAShr:
		s := y
		if s > 63 {
			s = 63
		}
		r = uint64(sext(x, w) >> s)
	default:
		return 0, false
	}
	return r & mask(w), true
}

func commutative(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

func (t *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if r, ok := foldBin(op, w, a.v, b.v); ok {
			return t.Const(w, r)
		}
	}
	if commutative(op) {
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	zero := func() *Term { return t.Const(w, 0) }
	switch op {
	case OAdd:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return t.Bin(OAdd, a.a, t.Const(w, a.b.v+b.v))
			}
			if a.op == OSub && a.a.isConst() {
				return t.Bin(OSub, t.Const(w, a.a.v+b.v), a.b)
			}
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
		// (x - y) + z where x-y is Sub(Add..)? keep
	case OSub:
		if a == b {
			return zero()
		}
		if b.isConst() {
			return t.Bin(OAdd, a, t.Const(w, -b.v))
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OAdd && b.a == a {
			return t.Bin(OSub, zero(), b.b)
		}
		if a.op == OAdd && a.b.isConst() && b.op == OAdd && b.b.isConst() {
			return t.Bin(OAdd, t.Bin(OSub, a.a, b.a), t.Const(w, a.b.v-b.b.v))
		}
		if b.op == OSub && b.a == a {
			return b.b
		}
	case OMul:
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
			if b.v&(b.v-1) == 0 {
				return t.Bin(OShl, a, t.Const(w, uint64(bits.TrailingZeros64(b.v))))
			}
		}
	case OUDiv:
		if b.isConst() {
			if b.v == 1 {
				return a
			}
			if b.v != 0 && b.v&(b.v-1) == 0 {
				return t.Bin(OLShr, a, t.Const(w, uint64(bits.TrailingZeros64(b.v))))
			}
			if b.v != 0 && a.umax() < b.v {
				return zero()
			}
		}
	case OURem:
		if b.isConst() {
			if b.v == 1 {
				return zero()
			}
			if b.v != 0 && b.v&(b.v-1) == 0 {
				return t.Bin(OBAnd, a, t.Const(w, b.v-1))
			}
			if b.v != 0 && a.umax() < b.v {
				return a
			}
		}
	case OSDiv, OSRem:
		half := mask(w) >> 1
		if a.umax() <= half && b.umax() <= half {
			if op == OSDiv {
				return t.Bin(OUDiv, a, b)
			}
			return t.Bin(OURem, a, b)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == mask(w) {
				return a
			}
			if a.op == OBAnd && a.b.isConst() {
				return t.Bin(OBAnd, a.a, t.Const(w, a.b.v&b.v))
			}
			// low mask covering umax
			if b.v&(b.v+1) == 0 {
				if a.umax() <= b.v {
					return a
				}
				// and with low mask == zext(extract)
				k := uint8(bits.Len64(b.v))
				return t.ZExt(t.Extract(a, k-1, 0), w)
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
			}
			if a.op == OZExt && b.v <= mask(a.a.w) {
				return t.ZExt(t.Bin(OBAnd, a.a, t.Const(a.a.w, b.v)), w)
			}
			if a.op == OZExt {
				return t.ZExt(t.Bin(OBAnd, a.a, t.Const(a.a.w, b.v)), w)
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if b.isConst() && b.v == 0 {
			return a
		}
		if b.isConst() && b.v == mask(w) {
			return b
		}
		if r := t.orConcat(a, b); r != nil {
			return r
		}
		if r := t.orConcat(b, a); r != nil {
			return r
		}
	case OBXor:
		if a == b {
			return zero()
		}
		if b.isConst() && b.v == 0 {
			return a
		}
		if b.isConst() && a.op == OBXor && a.b.isConst() {
			return t.Bin(OBXor, a.a, t.Const(w, a.b.v^b.v))
		}
		// normalise xor chains: cancel equal leaves
		return t.xorChain(a, b)
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(w) {
				if op != OAShr {
					return zero()
				}
				b = t.Const(w, uint64(w)-1)
			}
			k := uint8(b.v)
			switch op {
			case OShl:
				return t.Concat(t.Extract(a, w-1-k, 0), t.Const(k, 0))
			case OLShr:
				return t.ZExt(t.Extract(a, w-1, k), w)
			case OAShr:
				if a.umax() <= mask(w)>>1 {
					return t.ZExt(t.Extract(a, w-1, k), w)
				}
				return t.SExt(t.Extract(a, w-1, k), w)
			}
		}
	}
	return t.mk(tkey{op: op, w: w, a: a, b: b})
}

// orConcat: a | b where b's low part region is zero in one and the other only occupies low bits.
func (t *TermTable) orConcat(a, b *Term) *Term {
	// a = concat(hi, 0_k), b <= mask(k)
	if a.op == OConcat && a.b.isConst() && a.b.v == 0 {
		k := a.b.w
		if b.umax() <= mask(k) {
			return t.Concat(a.a, t.Extract(b, k-1, 0))
		}
	}
	// a = zext(concat(hi,0_k))
	if a.op == OZExt && a.a.op == OConcat && a.a.b.isConst() && a.a.b.v == 0 {
		k := a.a.b.w
		if b.umax() <= mask(k) {
			return t.ZExt(t.Concat(a.a.a, t.Extract(b, k-1, 0)), a.w)
		}
	}
	return nil
}

func (t *TermTable) xorChain(a, b *Term) *Term {
	var leaves []*Term
	var cv uint64
	n := 0
	var walk func(x *Term)
	walk = func(x *Term) {
		n++
		if x.op == OBXor && n < 64 {
			walk(x.a)
			walk(x.b)
			return
		}
		if x.isConst() {
			cv ^= x.v
			return
		}
		for i, l := range leaves {
			if l == x {
				leaves = append(leaves[:i], leaves[i+1:]...)
				return
			}
		}
		leaves = append(leaves, x)
	}
	walk(a)
	walk(b)
	w := a.w
	// sort by id for canonical form
	for i := 1; i < len(leaves); i++ {
		for j := i; j > 0 && leaves[j-1].id > leaves[j].id; j-- {
			leaves[j-1], leaves[j] = leaves[j], leaves[j-1]
		}
	}
	if len(leaves) == 0 {
		return t.Const(w, cv)
	}
	r := leaves[0]
	for _, l := range leaves[1:] {
		r = t.mk(tkey{op: OBXor, w: w, a: r, b: l})
	}
	if cv != 0 {
		r = t.mk(tkey{op: OBXor, w: w, a: r, b: t.Const(w, cv)})
	}
	return r
}

func (t *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return t.Const(a.w, ^a.v)
	}
	return t.Bin(OBXor, a, t.Const(a.w, mask(a.w)))
}
func (t *TermTable) Neg(a *Term) *Term { return t.Bin(OSub, t.Const(a.w, 0), a) }

func (t *TermTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(w, a.v)
	}
	if a.op == OZExt {
		return t.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return t.Ite(a.a, t.Const(w, a.b.v), t.Const(w, a.c.v))
	}
	return t.mk(tkey{op: OZExt, w: w, a: a})
}

func (t *TermTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(w, uint64(sext(a.v, a.w)))
	}
	if a.umax() <= mask(a.w)>>1 {
		return t.ZExt(a, w)
	}
	if a.op == OSExt {
		return t.SExt(a.a, w)
	}
	return t.mk(tkey{op: OSExt, w: w, a: a})
}

func (t *TermTable) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return t.Const(w, a.v>>lo)
	case OExtract:
		return t.Extract(a.a, hi+uint8(a.v), lo+uint8(a.v))
	case OZExt:
		iw := a.a.w
		if hi < iw {
			return t.Extract(a.a, hi, lo)
		}
		if lo >= iw {
			return t.Const(w, 0)
		}
		return t.ZExt(t.Extract(a.a, iw-1, lo), w)
	case OSExt:
		iw := a.a.w
		if hi < iw {
			return t.Extract(a.a, hi, lo)
		}
		if lo < iw {
			return t.SExt(t.Extract(a.a, iw-1, lo), w)
		}
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return t.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return t.Extract(a.a, hi-lw, lo-lw)
		}
		return t.Concat(t.Extract(a.a, hi-lw, 0), t.Extract(a.b, lw-1, lo))
	case OBAnd, OBOr, OBXor:
		return t.Bin(a.op, t.Extract(a.a, hi, lo), t.Extract(a.b, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return t.Bin(a.op, t.Extract(a.a, hi, 0), t.Extract(a.b, hi, 0))
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return t.Ite(a.a, t.Extract(a.b, hi, lo), t.Extract(a.c, hi, lo))
		}
	}
	return t.mk(tkey{op: OExtract, w: w, a: a, v: uint64(lo)})
}

func (t *TermTable) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return t.Const(w, a.v<<b.w|b.v)
	}
	if a.isConst() && a.v == 0 {
		return t.ZExt(b, w)
	}
	// concat(extract(x,h,m+1), extract(x,m,l)) -> extract(x,h,l)
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.v == b.v+uint64(b.w) {
		return t.Extract(a.a, uint8(a.v)+a.w-1, uint8(b.v))
	}
	// concat(extract(x,h,k), x') where x' is whole low x? b of width k with x low bits being b itself as narrower: skip
	if b.op == OConcat {
		// right-assoc -> try merging left pair
		m := t.tryConcat(a, b.a)
		if m != nil {
			return t.Concat(m, b.b)
		}
	}
	if a.op == OConcat {
		m := t.tryConcat(a.b, b)
		if m != nil {
			return t.Concat(a.a, m)
		}
	}
	if a.op == OZExt && a.a.op != OConst {
		return t.ZExt(t.Concat(a.a, b), w)
	}
	return t.mk(tkey{op: OConcat, w: w, a: a, b: b})
}

func (t *TermTable) tryConcat(a, b *Term) *Term {
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.v == b.v+uint64(b.w) {
		return t.Extract(a.a, uint8(a.v)+a.w-1, uint8(b.v))
	}
	if a.isConst() && b.isConst() {
		return t.Const(a.w+b.w, a.v<<b.w|b.v)
	}
	return nil
}

func (t *TermTable) UF(name string, w uint8, a, b *Term) *Term {
	return t.mk(tkey{op: OUF, w: w, a: a, b: b, name: name})
}

// Eval under a model (var term -> value), memoised in m.
type Model struct {
	vals map[*Term]uint64
	memo map[*Term]uint64
}

func (m *Model) Eval(x *Term) uint64 {
	switch x.op {
	case OConst:
		return x.v
	case OVar:
		return m.vals[x]
	}
	if v, ok := m.memo[x]; ok {
		return v
	}
	v := m.eval1(x)
	m.memo[x] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval1(x *Term) uint64 {
	switch x.op {
	case ONot:
		return 1 - m.Eval(x.a)
	case OAnd:
		if m.Eval(x.a) == 0 {
			return 0
		}
		return m.Eval(x.b)
	case OOr:
		if m.Eval(x.a) == 1 {
			return 1
		}
		return m.Eval(x.b)
	case OIte:
		if m.Eval(x.a) == 1 {
			return m.Eval(x.b)
		}
		return m.Eval(x.c)
	case OEq:
		return b2u(m.Eval(x.a) == m.Eval(x.b))
	case OUlt:
		return b2u(m.Eval(x.a) < m.Eval(x.b))
	case OUle:
		return b2u(m.Eval(x.a) <= m.Eval(x.b))
	case OSlt:
		return b2u(sext(m.Eval(x.a), x.a.w) < sext(m.Eval(x.b), x.a.w))
	case OSle:
		return b2u(sext(m.Eval(x.a), x.a.w) <= sext(m.Eval(x.b), x.a.w))
	case OZExt:
		return m.Eval(x.a)
	case OSExt:
		return uint64(sext(m.Eval(x.a), x.a.w)) & mask(x.w)
	case OExtract:
		return m.Eval(x.a) >> x.v & mask(x.w)
	case OConcat:
		return m.Eval(x.a)<<x.b.w | m.Eval(x.b)
	case OUF:
		var y uint64
		if x.b != nil {
			y = m.Eval(x.b)
		}
		return evalUF(x.name, m.Eval(x.a), y) & mask(x.w)
	}
	p, q := m.Eval(x.a), m.Eval(x.b)
	r, ok := foldBin(x.op, x.w, p, q)
	if !ok {
		switch x.op {
		case OSDiv:
			if sext(p, x.w) < 0 {
				return 1
			}
			return mask(x.w)
		case OSRem:
			return p
		}
		panic("eval " + opSMT[x.op])
	}
	return r
}

func (x *Term) sort() string {
	if x.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", x.w)
}

func constSMT(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (x *Term) String() string {
	var sb strings.Builder
	x.str(&sb, 0)
	return sb.String()
}
func (x *Term) str(sb *strings.Builder, d int) {
	if d > 8 {
		sb.WriteString("...")
		return
	}
	switch x.op {
	case OConst:
		if x.w == 0 {
			sb.WriteString(constSMT(0, x.v))
		} else {
			fmt.Fprintf(sb, "%d:%d", x.v, x.w)
		}
	case OVar:
		sb.WriteString(x.name)
	default:
		sb.WriteString("(")
		switch x.op {
		case OZExt:
			fmt.Fprintf(sb, "zext%d", x.w)
		case OSExt:
			fmt.Fprintf(sb, "sext%d", x.w)
		case OExtract:
			fmt.Fprintf(sb, "ext[%d:%d]", int(x.v)+int(x.w)-1, x.v)
		case OUF:
			sb.WriteString(x.name)
		default:
			sb.WriteString(opSMT[x.op])
		}
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil {
				sb.WriteString(" ")
				y.str(sb, d+1)
			}
		}
		sb.WriteString(")")
	}
}
