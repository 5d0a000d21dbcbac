package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync"
	"unicode/utf8"
)

var ssaMu sync.Mutex
var baseMu sync.Mutex

func evalUF(name string, x, y uint64) uint64 { panic("uninterpreted function " + name) }

func (ex *Exec) binop(st *State, th *Thread, in *Instr, x, y Value) (Value, ctl) {
	l := in.lay
	if l.isStr {
		return concatStr(x, y), cNext
	}
	if l.isFloat {
		return ex.floatBin(st, in, x, y), cNext
	}
	w := l.w
	isShift := in.tok == token.SHL || in.tok == token.SHR
	if x.p == nil && y.p == nil {
		a, b := x.n, y.n
		var r uint64
		switch in.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.AND:
			r = a & b
		case token.OR:
			r = a | b
		case token.XOR:
			r = a ^ b
		case token.AND_NOT:
			r = a &^ b
		case token.QUO, token.REM:
			if b == 0 {
				ex.goPanicStr(st, th, "integer divide by zero")
				return Value{}, cPanic
			}
			if l.signed {
				sa, sb := sext(a, w), sext(b, w)
				if sb == -1 {
					if in.tok == token.QUO {
						r = uint64(-sa)
					} else {
						r = 0
					}
				} else if in.tok == token.QUO {
					r = uint64(sa / sb)
				} else {
					r = uint64(sa % sb)
				}
			} else if in.tok == token.QUO {
				r = a / b
			} else {
				r = a % b
			}
		case token.SHL, token.SHR:
			if in.lay2.signed {
				if sext(b, in.lay2.w) < 0 {
					ex.goPanicStr(st, th, "negative shift amount")
					return Value{}, cPanic
				}
			}
			if in.tok == token.SHL {
				if b < 64 {
					r = a << b
				}
			} else if l.signed {
				if b > 63 {
					b = 63
				}
				r = uint64(sext(a, w) >> b)
			} else if b < 64 {
				r = a >> b
			}
		default:
			ex.fail("binop %v", in.tok)
		}
		return Value{n: r & mask(w)}, cNext
	}
	if l.isBool {
		a, b := ex.boolTerm(x), ex.boolTerm(y)
		switch in.tok {
		case token.AND:
			return tv(ex.tt.And(a, b)), cNext
		case token.OR:
			return tv(ex.tt.Or(a, b)), cNext
		}
		ex.fail("bool op %v", in.tok)
	}
	tt := ex.tt
	a := ex.term(x, w)
	if isShift {
		cw := in.lay2.w
		c := ex.term(y, cw)
		if in.lay2.signed {
			if !ex.boolKnownTrue(st, tt.Sle(tt.Const(cw, 0), c)) {
				ex.goPanicStr(st, th, "negative shift amount")
				return Value{}, cPanic
			}
		}
		var big, c2 *Term
		if cw > w {
			big = tt.Not(tt.Ult(c, tt.Const(cw, uint64(w))))
			c2 = tt.Extract(c, w-1, 0)
		} else {
			c2 = tt.ZExt(c, w)
			big = tt.F
		}
		var r, over *Term
		switch {
		case in.tok == token.SHL:
			r, over = tt.Bin(OShl, a, c2), tt.Const(w, 0)
		case l.signed:
			r, over = tt.Bin(OAShr, a, c2), tt.Bin(OAShr, a, tt.Const(w, uint64(w-1)))
		default:
			r, over = tt.Bin(OLShr, a, c2), tt.Const(w, 0)
		}
		return tv(tt.Ite(big, over, r)), cNext
	}
	b := ex.term(y, w)
	switch in.tok {
	case token.ADD:
		return tv(tt.Bin(OAdd, a, b)), cNext
	case token.SUB:
		return tv(tt.Bin(OSub, a, b)), cNext
	case token.MUL:
		return tv(tt.Bin(OMul, a, b)), cNext
	case token.AND:
		return tv(tt.Bin(OBAnd, a, b)), cNext
	case token.OR:
		return tv(tt.Bin(OBOr, a, b)), cNext
	case token.XOR:
		return tv(tt.Bin(OBXor, a, b)), cNext
	case token.AND_NOT:
		return tv(tt.Bin(OBAnd, a, tt.BNot(b))), cNext
	case token.QUO, token.REM:
		if !ex.boolKnownTrue(st, tt.Not(tt.Eq(b, tt.Const(w, 0)))) {
			ex.goPanicStr(st, th, "integer divide by zero")
			return Value{}, cPanic
		}
		op := OUDiv
		switch {
		case l.signed && in.tok == token.QUO:
			op = OSDiv
		case l.signed:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		if (op == OUDiv || op == OURem) && b.isConst() && b.v&(b.v-1) != 0 && !a.isConst() {
			if r := ex.divSum(st, op, a, b.v); r != nil {
				return tv(r), cNext
			}
		}
		return tv(tt.Bin(op, a, b)), cNext
	}
	ex.fail("binop %v", in.tok)
	return Value{}, cNext
}

func (ex *Exec) boolKnownTrue(st *State, c *Term) bool {
	if c == ex.tt.T {
		return true
	}
	if c == ex.tt.F {
		return false
	}
	return ex.branch(st, c)
}

func (ex *Exec) floatBin(st *State, in *Instr, x, y Value) Value {
	if x.isSym() || y.isSym() {
		ex.fail("symbolic float")
	}
	if in.lay.w == 32 {
		a, b := math.Float32frombits(uint32(x.n)), math.Float32frombits(uint32(y.n))
		var r float32
		switch in.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		default:
			ex.fail("float op")
		}
		return intV(uint64(math.Float32bits(r)))
	}
	a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
	var r float64
	switch in.tok {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		r = a / b
	default:
		ex.fail("float op")
	}
	return intV(math.Float64bits(r))
}

func concatStr(x, y Value) Value {
	if x.p == nil {
		return y
	}
	if y.p == nil {
		return x
	}
	a, ok1 := x.p.(string)
	b, ok2 := y.p.(string)
	if ok1 && ok2 {
		return Value{p: a + b}
	}
	return mkStr(append(append([]Value(nil), strBytes(x)...), strBytes(y)...))
}

func (ex *Exec) unop(in *Instr, x Value) Value {
	l := in.lay
	switch in.tok {
	case token.NOT:
		if t := x.term(); t != nil {
			return tv(ex.tt.Not(t))
		}
		return Value{n: 1 - x.n}
	case token.SUB:
		if l.isFloat {
			if l.w == 32 {
				return intV(uint64(math.Float32bits(-math.Float32frombits(uint32(x.n)))))
			}
			return intV(math.Float64bits(-math.Float64frombits(x.n)))
		}
		if t := x.term(); t != nil {
			return tv(ex.tt.Neg(t))
		}
		return Value{n: -x.n & mask(l.w)}
	case token.XOR:
		if t := x.term(); t != nil {
			return tv(ex.tt.BNot(t))
		}
		return Value{n: ^x.n & mask(l.w)}
	}
	ex.fail("unop %v", in.tok)
	return Value{}
}

func (ex *Exec) compare(st *State, op token.Token, x, y Value, t, t2 types.Type, l *Layout) Value {
	if l.scalar && l.w != 0 && !l.isFloat {
		if x.p == nil && y.p == nil {
			var r bool
			switch op {
			case token.EQL:
				r = x.n == y.n
			case token.NEQ:
				r = x.n != y.n
			default:
				if l.signed {
					a, b := sext(x.n, l.w), sext(y.n, l.w)
					switch op {
					case token.LSS:
						r = a < b
					case token.LEQ:
						r = a <= b
					case token.GTR:
						r = a > b
					case token.GEQ:
						r = a >= b
					}
				} else {
					switch op {
					case token.LSS:
						r = x.n < y.n
					case token.LEQ:
						r = x.n <= y.n
					case token.GTR:
						r = x.n > y.n
					case token.GEQ:
						r = x.n >= y.n
					}
				}
			}
			return boolV(r)
		}
		a, b := ex.term(x, l.w), ex.term(y, l.w)
		tt := ex.tt
		var c *Term
		lt, le := tt.Ult, tt.Ule
		if l.signed {
			lt, le = tt.Slt, tt.Sle
		}
		switch op {
		case token.EQL:
			c = tt.Eq(a, b)
		case token.NEQ:
			c = tt.Not(tt.Eq(a, b))
		case token.LSS:
			c = lt(a, b)
		case token.LEQ:
			c = le(a, b)
		case token.GTR:
			c = lt(b, a)
		case token.GEQ:
			c = le(b, a)
		}
		return tv(c)
	}
	if l.isFloat {
		if x.isSym() || y.isSym() {
			ex.fail("symbolic float")
		}
		var a, b float64
		if l.w == 32 {
			a, b = float64(math.Float32frombits(uint32(x.n))), float64(math.Float32frombits(uint32(y.n)))
		} else {
			a, b = math.Float64frombits(x.n), math.Float64frombits(y.n)
		}
		var r bool
		switch op {
		case token.EQL:
			r = a == b
		case token.NEQ:
			r = a != b
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		}
		return boolV(r)
	}
	switch op {
	case token.EQL, token.NEQ:
		// comparing interface with concrete value
		_, xi := t.Underlying().(*types.Interface)
		_, yi := t2.Underlying().(*types.Interface)
		if xi && !yi {
			y = mkIface(t2, y)
		} else if yi && !xi {
			x = mkIface(t, x)
			t = t2
		}
		e := ex.eqTerm(st, x, y, t, ex.p.layout(t))
		if op == token.NEQ {
			e = ex.tt.Not(e)
		}
		return tv(e)
	}
	if l.isStr {
		// x < y etc.
		var lt, eq *Term
		lt, eq = ex.strLess(x, y)
		tt := ex.tt
		switch op {
		case token.LSS:
			return tv(lt)
		case token.LEQ:
			return tv(tt.Or(lt, eq))
		case token.GTR:
			return tv(tt.Not(tt.Or(lt, eq)))
		case token.GEQ:
			return tv(tt.Not(lt))
		}
	}
	ex.fail("compare %v on %s", op, t)
	return Value{}
}

func (ex *Exec) strLess(x, y Value) (lt, eq *Term) {
	a, ok1 := concreteStr(x)
	b, ok2 := concreteStr(y)
	if ok1 && ok2 {
		return ex.tt.Bool(a < b), ex.tt.Bool(a == b)
	}
	p, q := strBytes(x), strBytes(y)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	tt := ex.tt
	lt = tt.Bool(len(p) < len(q))
	eq = tt.Bool(len(p) == len(q))
	for i := n - 1; i >= 0; i-- {
		u, v := ex.term(p[i], 8), ex.term(q[i], 8)
		e := tt.Eq(u, v)
		lt = tt.Or(tt.Ult(u, v), tt.And(e, lt))
		eq = tt.And(e, eq)
	}
	return
}

// eqTerm is the truth of x == y at type t.
func (ex *Exec) eqTerm(st *State, x, y Value, t types.Type, l *Layout) *Term {
	tt := ex.tt
	if l.isStr {
		if a, ok := concreteStr(x); ok {
			if b, ok := concreteStr(y); ok {
				return tt.Bool(a == b)
			}
		}
		if strLen(x) != strLen(y) {
			return tt.F
		}
		return ex.bytesEq(strBytes(x), strBytes(y))
	}
	if l.isBool {
		return tt.Eq(ex.boolTerm(x), ex.boolTerm(y))
	}
	if l.w != 0 && !l.isFloat {
		return tt.Eq(ex.term(x, l.w), ex.term(y, l.w))
	}
	if l.isFloat {
		return tt.Bool(math.Float64frombits(x.n) == math.Float64frombits(y.n))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.agg(), y.agg()
		r := tt.T
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fl := ex.p.layout(ft)
			o := l.fields[i]
			var p, q Value
			if isAggregate(ft) {
				p, q = aggV(a[o:o+fl.slots]), aggV(b[o:o+fl.slots])
			} else {
				p, q = a[o], b[o]
			}
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tt.And(r, ex.eqTerm(st, p, q, ft, fl))
		}
		return r
	case *types.Array:
		a, b := x.agg(), y.agg()
		el := ex.p.layout(u.Elem())
		r := tt.T
		for i := 0; i < int(u.Len()); i++ {
			var p, q Value
			if isAggregate(u.Elem()) {
				p, q = aggV(a[i*el.slots:(i+1)*el.slots]), aggV(b[i*el.slots:(i+1)*el.slots])
			} else {
				p, q = a[i], b[i]
			}
			r = tt.And(r, ex.eqTerm(st, p, q, u.Elem(), el))
		}
		return r
	case *types.Interface:
		a, b := x.iface(), y.iface()
		if a == nil || b == nil {
			return tt.Bool(a == nil && b == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tt.F
		}
		return ex.eqTerm(st, a.v, b.v, a.t, ex.p.layout(a.t))
	case *types.Slice, *types.Signature, *types.Map:
		if x.p == nil || y.p == nil {
			return tt.Bool(x.p == nil && y.p == nil)
		}
		if x.p == ptrMark {
			return tt.Bool(x.n == y.n)
		}
		ex.fail("comparing %s", t)
	}
	// pointers, channels, unsafe pointers
	if sp, ok := x.p.(*SymPtr); ok {
		if sq, ok := y.p.(*SymPtr); ok && sp.obj == sq.obj && sp.base == sq.base && sp.stride == sq.stride && sp.sub == sq.sub {
			return tt.Eq(sp.idx, sq.idx)
		}
		if y.p == nil {
			return tt.F
		}
		k := ex.concretize(st, sp.idx, "pointer comparison")
		x = ptrV(sp.obj, sp.base+int(k)*sp.stride+sp.sub)
	}
	if sq, ok := y.p.(*SymPtr); ok {
		if x.p == nil {
			return tt.F
		}
		k := ex.concretize(st, sq.idx, "pointer comparison")
		y = ptrV(sq.obj, sq.base+int(k)*sq.stride+sq.sub)
	}
	return tt.Bool(x.p == y.p && x.n == y.n)
}

func (ex *Exec) bytesEq(a, b []Value) *Term {
	tt := ex.tt
	r := tt.T
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if a[i].n != b[i].n {
				return tt.F
			}
			continue
		}
		r = tt.And(r, tt.Eq(ex.term(a[i], 8), ex.term(b[i], 8)))
		if r == tt.F {
			return r
		}
	}
	return r
}

func (ex *Exec) convert(st *State, th *Thread, in *Instr, x Value) (Value, ctl) {
	dl, sl := in.lay, in.lay2
	// numeric to numeric
	if dl.w != 0 && sl.w != 0 {
		switch {
		case !dl.isFloat && !sl.isFloat:
			if t := x.term(); t != nil {
				switch {
				case dl.w == sl.w:
					return x, cNext
				case dl.w < sl.w:
					return tv(ex.tt.Extract(t, dl.w-1, 0)), cNext
				case sl.signed:
					return tv(ex.tt.SExt(t, dl.w)), cNext
				default:
					return tv(ex.tt.ZExt(t, dl.w)), cNext
				}
			}
			if sl.signed {
				return Value{n: uint64(sext(x.n, sl.w)) & mask(dl.w)}, cNext
			}
			return Value{n: x.n & mask(dl.w)}, cNext
		case dl.isFloat && !sl.isFloat:
			if t := x.term(); t != nil {
				x = Value{n: ex.concretize(st, t, "integer converted to float at "+ex.p.pos(in.raw))}
			}
			var f float64
			if sl.signed {
				f = float64(sext(x.n, sl.w))
			} else {
				f = float64(x.n)
			}
			return floatV(f, dl.w), cNext
		case dl.isFloat && sl.isFloat:
			return floatV(floatOf(x, sl.w), dl.w), cNext
		default:
			f := floatOf(x, sl.w)
			if dl.signed {
				return Value{n: uint64(int64(f)) & mask(dl.w)}, cNext
			}
			return Value{n: uint64(f) & mask(dl.w)}, cNext
		}
	}
	if dl.isStr {
		if sl.isStr {
			return x, cNext
		}
		if sl.w != 0 {
			// rune to string
			if t := x.term(); t != nil {
				if sl.w > 32 {
					if !ex.branch(st, ex.tt.Ult(t, ex.tt.Const(t.w, 0x110000))) {
						return strV("\uFFFD"), cNext
					}
					t = ex.tt.Extract(t, 31, 0)
				} else if sl.w < 32 {
					if sl.signed {
						t = ex.tt.SExt(t, 32)
					} else {
						t = ex.tt.ZExt(t, 32)
					}
				}
				return mkStr(ex.encodeRune(st, t)), cNext
			}
			n := sext(x.n, sl.w)
			if n < 0 || n > 0x10ffff {
				n = 0xfffd
			}
			return strV(string(rune(n))), cNext
		}
		if s, ok := in.typ2.Underlying().(*types.Slice); ok {
			if isByteType(s.Elem()) {
				return st.bytesToStr(x), cNext
			}
			// []rune
			var out []Value
			for _, r := range st.sliceVals(x, 1) {
				if t := r.term(); t != nil {
					out = append(out, ex.encodeRune(st, t)...)
					continue
				}
				for _, b := range utf8.AppendRune(nil, rune(int32(r.n))) {
					out = append(out, intV(uint64(b)))
				}
			}
			return mkStr(out), cNext
		}
	}
	if sl.isStr {
		if s, ok := in.typ.Underlying().(*types.Slice); ok {
			if isByteType(s.Elem()) {
				return st.strToBytes(x), cNext
			}
			var rs []Value
			b := strBytes(x)
			for len(b) > 0 {
				r, w := ex.decodeRune(st, b)
				rs = append(rs, r)
				b = b[w:]
			}
			id := st.allocCells(len(rs))
			for i, r := range rs {
				st.storeSlot(id, i, r)
			}
			return Value{p: &SliceV{id, 0, len(rs), len(rs)}}, cNext
		}
	}
	// unsafe pointers and the like: same representation
	if dl.slots == 1 && sl.slots == 1 {
		return x, cNext
	}
	ex.fail("convert %s -> %s", in.typ2, in.typ)
	return Value{}, cPanic
}

func floatV(f float64, w uint8) Value {
	if w == 32 {
		return intV(uint64(math.Float32bits(float32(f))))
	}
	return intV(math.Float64bits(f))
}

func floatOf(x Value, w uint8) float64 {
	if x.isSym() {
		panic(engineError{"symbolic float"})
	}
	if w == 32 {
		return float64(math.Float32frombits(uint32(x.n)))
	}
	return math.Float64frombits(x.n)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, th *Thread, f *Frame, in *Instr, args []Value) (Value, ctl) {
	switch in.builtin {
	case "len":
		return intV(uint64(ex.lenOf(st, th, args[0], in.typ2))), cNext
	case "cap":
		switch u := in.typ2.Underlying().(type) {
		case *types.Slice:
			if s := args[0].slice(); s != nil {
				return intV(uint64(s.cap)), cNext
			}
			return Value{}, cNext
		case *types.Array:
			return intV(uint64(u.Len())), cNext
		case *types.Pointer:
			return intV(uint64(u.Elem().Underlying().(*types.Array).Len())), cNext
		case *types.Chan:
			if args[0].p == nil {
				return Value{}, cNext
			}
			return intV(uint64(st.heap.get(args[0].obj()).ch.cap)), cNext
		}
	case "append":
		return ex.appendB(st, th, in, args), cNext
	case "copy":
		var n, m int
		d := args[0].slice()
		if d != nil {
			n = d.len
		}
		if in.lay2.isStr {
			m = strLen(args[1])
		} else if s := args[1].slice(); s != nil {
			m = s.len
		}
		if m < n {
			n = m
		}
		if n > 0 {
			es := in.lay.slots
			if in.lay2.isStr {
				st.writeStr(d.obj, d.off, subStr(args[1], 0, n))
			} else {
				s := args[1].slice()
				if st.race != nil {
					ex.raceAccess(st, th, s.obj, s.off, n*es, false)
				}
				st.copySlots(d.obj, d.off, s.obj, s.off, n*es)
			}
			if st.race != nil {
				ex.raceAccess(st, th, d.obj, d.off, n*es, true)
			}
		}
		return intV(uint64(n)), cNext
	case "delete":
		if args[0].p == nil {
			return Value{}, cNext
		}
		i := ex.mapFind(st, st.heap.get(args[0].obj()).m, args[1])
		if i >= 0 {
			ex.mapDelete(st.wobj(args[0].obj()).m, i)
		}
		return Value{}, cNext
	case "clear":
		switch u := in.typ2.Underlying().(type) {
		case *types.Map:
			if args[0].p != nil {
				o := st.wobj(args[0].obj())
				o.m = &MapV{kt: o.m.kt, index: map[string]int{}}
			}
		case *types.Slice:
			if s := args[0].slice(); s != nil {
				n := s.len * ex.p.layout(u.Elem()).slots
				for i := 0; i < n; i++ {
					st.storeSlot(s.obj, s.off+i, Value{})
				}
			}
		}
		return Value{}, cNext
	case "close":
		return ex.chanClose(st, th, args[0])
	case "panic":
		ex.goPanic(st, th, args[0])
		return Value{}, cPanic
	case "recover":
		return ex.doRecover(th), cNext
	case "print", "println":
		return Value{}, cNext
	case "min", "max":
		r := args[0]
		l := in.phis[0]
		lay := &Layout{w: uint8(l.dst), signed: l.src&1 != 0, scalar: true, isStr: l.src&2 != 0, isFloat: l.src&4 != 0}
		for _, a := range args[1:] {
			op := token.LSS
			if in.builtin == "max" {
				op = token.GTR
			}
			c := ex.compare(st, op, a, r, in.typ2, in.typ2, lay)
			if t := c.term(); t != nil && lay.w != 0 {
				r = tv(ex.tt.Ite(t, ex.term(a, lay.w), ex.term(r, lay.w)))
			} else if ex.concBool(st, c) {
				r = a
			}
		}
		return r, cNext
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			ex.goPanicStr(st, th, "value method called using nil pointer")
			return Value{}, cPanic
		}
		return args[0], cNext
	case "ssa:deferstack":
		return Value{p: &NativeV{f.id}}, cNext
	case "String": // unsafe.String(ptr, len)
		n := int(ex.concInt(st, args[1], &Layout{w: 64, signed: true}, "unsafe.String length"))
		if n == 0 {
			return Value{}, cNext
		}
		return st.bytesToStr(Value{p: &SliceV{args[0].obj(), args[0].slot(), n, n}}), cNext
	case "StringData":
		s := st.strToBytes(args[0])
		if s.slice().len == 0 {
			return Value{}, cNext
		}
		return ptrV(s.slice().obj, 0), cNext
	case "SliceData":
		if s := args[0].slice(); s != nil {
			return ptrV(s.obj, s.off), cNext
		}
		return Value{}, cNext
	case "Slice":
		n := int(ex.concInt(st, args[1], &Layout{w: 64, signed: true}, "unsafe.Slice length"))
		if args[0].p == nil {
			return Value{}, cNext
		}
		return Value{p: &SliceV{args[0].obj(), args[0].slot(), n, n}}, cNext
	}
	ex.fail("builtin %s", in.builtin)
	return Value{}, cPanic
}

func (ex *Exec) lenOf(st *State, th *Thread, v Value, t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return strLen(v)
	case *types.Slice:
		if s := v.slice(); s != nil {
			return s.len
		}
		return 0
	case *types.Map:
		if v.p == nil {
			return 0
		}
		if st.race != nil {
			ex.raceAccess(st, th, v.obj(), 0, 1, false)
		}
		return st.heap.get(v.obj()).m.n
	case *types.Chan:
		if v.p == nil {
			return 0
		}
		return len(st.heap.get(v.obj()).ch.buf)
	case *types.Array:
		return int(u.Len())
	case *types.Pointer:
		return int(u.Elem().Underlying().(*types.Array).Len())
	}
	ex.fail("len of %s", t)
	return 0
}

func growCap(old, need int) int {
	if old == 0 {
		if need < 4 {
			return need
		}
		return need
	}
	c := old
	if old < 256 {
		c = old * 2
	} else {
		c = old + (old+768)/4
	}
	if c < need {
		c = need
	}
	return c
}

func (ex *Exec) appendB(st *State, th *Thread, in *Instr, args []Value) Value {
	es := in.lay.slots
	d := args[0].slice()
	var m int
	if in.lay2.isStr {
		m = strLen(args[1])
	} else if s := args[1].slice(); s != nil {
		m = s.len
	}
	if m == 0 {
		return args[0]
	}
	var dl, dc int
	if d != nil {
		dl, dc = d.len, d.cap
	}
	nd := &SliceV{}
	if dl+m <= dc {
		*nd = *d
		nd.len = dl + m
	} else {
		nc := growCap(dc, dl+m)
		el := in.typ2.Underlying().(*types.Slice).Elem()
		nd.obj = st.allocElems(ex.p, el, nc)
		nd.len, nd.cap = dl+m, nc
		if dl > 0 {
			if st.race != nil {
				ex.raceAccess(st, th, d.obj, d.off, dl*es, false)
			}
			st.copySlots(nd.obj, 0, d.obj, d.off, dl*es)
		}
	}
	if in.lay2.isStr {
		st.writeStr(nd.obj, nd.off+dl*es, args[1])
	} else {
		s := args[1].slice()
		if st.race != nil {
			ex.raceAccess(st, th, s.obj, s.off, m*es, false)
		}
		st.copySlots(nd.obj, nd.off+dl*es, s.obj, s.off, m*es)
	}
	if st.race != nil {
		ex.raceAccess(st, th, nd.obj, nd.off+dl*es, m*es, true)
	}
	return Value{p: nd}
}

var _ = fmt.Sprint

// encodeRune gives the UTF-8 bytes of a symbolic rune, branching on its length.
func (ex *Exec) encodeRune(st *State, t *Term) []Value {
	tt := ex.tt
	b := func(hi, lo uint8, lead uint64) Value {
		x := tt.ZExt(tt.Extract(t, hi, lo), 8)
		return tv(tt.Bin(OBOr, x, tt.Const(8, lead)))
	}
	if ex.branch(st, tt.Ult(t, tt.Const(32, 0x80))) {
		return []Value{tv(tt.Extract(t, 7, 0))}
	}
	if ex.branch(st, tt.Ult(t, tt.Const(32, 0x800))) {
		return []Value{b(10, 6, 0xc0), b(5, 0, 0x80)}
	}
	bad := tt.Or(tt.Not(tt.Ult(t, tt.Const(32, 0x110000))),
		tt.And(tt.Ule(tt.Const(32, 0xd800), t), tt.Ult(t, tt.Const(32, 0xe000))))
	if ex.branch(st, bad) {
		return []Value{intV(0xef), intV(0xbf), intV(0xbd)}
	}
	if ex.branch(st, tt.Ult(t, tt.Const(32, 0x10000))) {
		return []Value{b(15, 12, 0xe0), b(11, 6, 0x80), b(5, 0, 0x80)}
	}
	return []Value{b(20, 18, 0xf0), b(17, 12, 0x80), b(11, 6, 0x80), b(5, 0, 0x80)}
}

// implied tells whether c holds on this path, without forking.
func (ex *Exec) implied(st *State, c *Term) bool {
	if v, ok := ex.known(st, c); ok {
		return v
	}
	if st.model.Eval(c) == 0 {
		return false
	}
	if r, _ := ex.sol.Check(st.pc, ex.tt.Not(c)); r != Unsat {
		return false
	}
	st.pc = append(st.pc, c)
	return true
}

// divSum divides a sum with multiples of (a factor of) d symbolically:
// (x*k+y)/d = x/(d/k) and (x*k+y)%d = (x%(d/k))*k+y when k divides d, y<k
// and nothing overflows. The side conditions are proved on the current path.
func (ex *Exec) divSum(st *State, op Op, a *Term, d uint64) *Term {
	tt := ex.tt
	w := a.w
	if a.op != OAdd && a.op != OMul {
		return nil
	}
	type leaf struct {
		x *Term
		m uint64
	}
	var ls []leaf
	cv := uint64(0)
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		switch {
		case x.isConst():
			cv += x.v
		case x.op == OAdd:
			return walk(x.a) && walk(x.b)
		case x.op == OMul && x.b.isConst():
			ls = append(ls, leaf{x.a, x.b.v})
		case x.op == OMul && x.a.isConst():
			ls = append(ls, leaf{x.b, x.a.v})
		default:
			ls = append(ls, leaf{x, 1})
		}
		return len(ls) < 8
	}
	if !walk(a) || cv > mask(w) {
		return nil
	}
	// the largest factor of d that divides a coefficient
	k := uint64(0)
	for _, l := range ls {
		g, h := d, l.m
		for h != 0 {
			g, h = h, g%h
		}
		if g > 1 && (k == 0 || g > k) {
			k = g
		}
	}
	if k == 0 {
		return nil
	}
	c := func(v uint64) *Term { return tt.Const(w, v) }
	x, y := c(cv/k), c(cv%k)
	ww := w * 2
	if ww > 64 {
		return nil
	}
	wide := tt.Const(ww, cv)
	for _, l := range ls {
		wide = tt.Bin(OAdd, wide, tt.Bin(OMul, tt.ZExt(l.x, ww), tt.Const(ww, l.m)))
		if l.m%k == 0 {
			x = tt.Bin(OAdd, x, tt.Bin(OMul, l.x, c(l.m/k)))
		} else {
			y = tt.Bin(OAdd, y, tt.Bin(OMul, l.x, c(l.m)))
		}
	}
	if wide.umax() > mask(w) && !ex.implied(st, tt.Ule(wide, tt.Const(ww, mask(w)))) {
		return nil
	}
	if y.umax() >= k && !ex.implied(st, tt.Ult(y, c(k))) {
		return nil
	}
	if op == OUDiv {
		if d == k {
			return x
		}
		if r := ex.divSum(st, op, x, d/k); r != nil {
			return r
		}
		return tt.Bin(OUDiv, x, c(d/k))
	}
	if d == k {
		return y
	}
	r := ex.divSum(st, op, x, d/k)
	if r == nil {
		r = tt.Bin(OURem, x, c(d/k))
		if x.umax() >= d/k && ex.implied(st, tt.Ult(x, c(d/k))) {
			r = x
		}
	}
	return tt.Bin(OAdd, tt.Bin(OMul, r, c(k)), y)
}
