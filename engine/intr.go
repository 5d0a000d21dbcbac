package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type intrinsic func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl)

var debugStack = os.Getenv("GOSYM_DEBUG") != ""

type prefixIntr struct {
	prefix string
	f      intrinsic
}

var intrinsics map[string]intrinsic
var prefixIntrinsics []prefixIntr

func nop(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	return Value{}, cNext
}

func (ex *Exec) callNative(st *State, th *Thread, f *Frame, fv *FuncV, args []Value) (Value, ctl) {
	switch fv.native {
	case "swap":
		d := fv.data.(*swapData)
		i := int(ex.concInt(st, args[0], &Layout{w: 64, signed: true}, "swap"))
		j := int(ex.concInt(st, args[1], &Layout{w: 64, signed: true}, "swap"))
		for k := 0; k < d.es; k++ {
			p, q := d.off+i*d.es+k, d.off+j*d.es+k
			x, y := st.loadSlot(d.obj, p), st.loadSlot(d.obj, q)
			st.storeSlot(d.obj, p, y)
			st.storeSlot(d.obj, q, x)
		}
		return Value{}, cNext
	}
	if strings.HasPrefix(fv.native, "builtin ") {
		if in, ok := fv.data.(*Instr); ok {
			return ex.builtin(st, th, f, in, args)
		}
	}
	ex.fail("native function %s", fv.native)
	return Value{}, cNext
}

type swapData struct {
	obj     uint32
	off, es int
}

func goStr(ex *Exec, v Value) string {
	s, ok := concreteStr(v)
	if !ok {
		ex.fail("symbolic string where a constant is needed")
	}
	return s
}

func (ex *Exec) input(st *State, name, kind string, w uint8) Value {
	n := st.names[name]
	st.names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	t := ex.tt.Var(name, w)
	st.inputs = append(st.inputs, Input{Name: name, Kind: kind, T: t})
	return Value{p: t}
}

func (ex *Exec) doAssert(st *State, th *Thread, c Value, msg string) ctl {
	ex.asserts[msg]++
	t := ex.boolTerm(c)
	if t == ex.tt.T {
		return cNext
	}
	if v, ok := ex.known(st, t); ok && v {
		return cNext
	}
	neg := ex.tt.Not(t)
	ex.assertsSolver++
	var res Result
	var m *Model
	if st.model.Eval(neg) == 1 {
		res, m = Sat, st.model
	} else {
		res, m = ex.sol.Check(st.pc, neg)
		if res == Unsat && ex.crossEvery > 0 && ex.assertsSolver%ex.crossEvery == 0 {
			ex.sol.CrossCheck(st.pc, neg, Unsat)
		}
	}
	switch res {
	case Sat:
		ex.addViolation(st, "assert", msg, m)
		if !ex.assume(st, t) {
			ex.kill(st, "assert")
			return cStay
		}
	case Unknown:
		ex.incomplete["solver gave no verdict on an assertion: "+msg]++
		if !ex.assume(st, t) {
			ex.kill(st, "assert")
			return cStay
		}
	}
	return cNext
}

func isIn(ex *Exec, r Value, tab *unicode.RangeTable, cache *[]rspan) Value {
	if t := r.term(); t != nil {
		if *cache == nil {
			*cache = spans(tab)
		}
		return tv(ex.spanTerm(t, *cache))
	}
	return boolV(unicode.Is(tab, rune(int32(r.n))))
}

type rspan struct{ lo, hi uint32 } // inclusive

func spans(tab *unicode.RangeTable) []rspan {
	var out []rspan
	add := func(lo, hi, stride uint32) {
		if stride == 1 {
			out = append(out, rspan{lo, hi})
			return
		}
		for x := lo; x <= hi; x += stride {
			out = append(out, rspan{x, x})
		}
	}
	for _, r := range tab.R16 {
		add(uint32(r.Lo), uint32(r.Hi), uint32(r.Stride))
	}
	for _, r := range tab.R32 {
		add(r.Lo, r.Hi, r.Stride)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
	var m []rspan
	for _, s := range out {
		if n := len(m); n > 0 && m[n-1].hi+1 == s.lo {
			m[n-1].hi = s.hi
			continue
		}
		m = append(m, s)
	}
	return m
}

// spanTerm is "t lies in one of the spans" as a decision tree.
func (ex *Exec) spanTerm(t *Term, sp []rspan) *Term {
	um := t.umax()
	// boundaries
	var bs []uint32
	for _, s := range sp {
		if uint64(s.lo) > um {
			break
		}
		bs = append(bs, s.lo, s.hi+1)
	}
	// value before bs[0] false, toggles at each boundary
	tt := ex.tt
	var build func(lo, hi int) *Term // region index: number of boundaries <= t, in [lo,hi]
	build = func(lo, hi int) *Term {
		if lo == hi {
			return tt.Bool(lo%2 == 1)
		}
		m := (lo + hi + 1) / 2
		return tt.Ite(tt.Ult(t, tt.Const(t.w, uint64(bs[m-1]))), build(lo, m-1), build(m, hi))
	}
	return build(0, len(bs))
}

var letterSpans, digitSpans []rspan

func init() {
	letterSpans = spans(unicode.Letter)
	digitSpans = spans(unicode.Digit)
	V := vxPath + "."
	intrinsics = map[string]intrinsic{
		V + "U8":   inp("u8", 8),
		V + "U16":  inp("u16", 16),
		V + "U32":  inp("u32", 32),
		V + "U64":  inp("u64", 64),
		V + "Int":  inp("int", 64),
		V + "Bool": inp("bool", 0),
		V + "Param": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			k := goStr(ex, a[0])
			v, ok := ex.params[k]
			if !ok {
				v = int64(a[1].n)
			}
			return intV(uint64(v)), cNext
		},
		V + "Assume": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if !ex.assume(st, ex.boolTerm(a[0])) {
				ex.kill(st, "assume")
				return Value{}, cStay
			}
			return Value{}, cNext
		},
		V + "Assert": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return Value{}, ex.doAssert(st, th, a[0], goStr(ex, a[1]))
		},
		V + "Reach": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			st.reach = append(st.reach, goStr(ex, a[0]))
			return Value{}, cNext
		},
		V + "Conc": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if t := a[0].term(); t != nil {
				return Value{n: ex.concretize(st, t, "explicit case split")}, cNext
			}
			return a[0], cNext
		},
		V + "InEngine": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return boolV(true), cNext
		},
		V + "Done": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			ex.kill(st, "done")
			return Value{}, cStay
		},
		V + "exitPath": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			st.reach = append(st.reach, "exit")
			ex.kill(st, "exit")
			return Value{}, cStay
		},
		V + "Unsupported": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			ex.fail("%s", goStr(ex, a[0]))
			return Value{}, cNext
		},
		V + "Atomic": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			st.atomic = 0
			if int64(a[0].n) > 0 {
				st.atomic = 1
			}
			if st.explore && st.atomic > 0 && len(st.threads) > 1 && ex.seenBefore(st, 1) {
				return Value{}, cStay
			}
			return Value{}, cNext
		},
		V + "RaceOff": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if st.race != nil {
				st.race.off = true
			}
			return Value{}, cNext
		},
		V + "Observe": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			st.obs = append(st.obs, Observation{Name: goStr(ex, a[0]), V: a[1]})
			return Value{}, cNext
		},
		V + "hashWordReg": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			st.words = append(st.words, hashWord{goStr(ex, a[0]), ex.term(a[1], 32)})
			return Value{}, cNext
		},
		V + "MapKeysMode": nop,
		// scheduling primitives
		V + "point": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if ex.schedPoint(st, th, goStr(ex, a[0]), a[1].n) {
				return Value{}, cStay
			}
			return Value{}, cNext
		},
		V + "event": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if st.explore && st.atomic == 0 {
				if k := goStr(ex, a[0]); k == "lock" || k == "rlock" {
					ex.taken(st, th, k, a[1].n)
				}
			}
			return Value{}, cNext
		},
		V + "waitOn": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			// advance first: the caller loops and re-tests its condition
			f := th.frames[len(th.frames)-1]
			f.ip++
			ex.block(st, th, wOther, a[0].n, goStr(ex, a[1]))
			return Value{}, cBlock
		},
		V + "quiesce": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			f := th.frames[len(th.frames)-1]
			f.ip++
			ex.block(st, th, wQuiesce, 0, "waiting for the other goroutines")
			return Value{}, cBlock
		},
		V + "wake": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			ex.wakeAll(st, wOther, a[0].n)
			return Value{}, cNext
		},
		V + "acquire": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			ex.raceAcquire(st, th, a[0].n)
			return Value{}, cNext
		},
		V + "release": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			ex.raceRelease(st, th, a[0].n)
			return Value{}, cNext
		},
		V + "touched": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if st.race != nil {
				if s := a[0].slice(); s != nil && s.len > 0 {
					ex.raceTouch(st, th, s.obj, s.off, s.len, a[1].n != 0)
				}
			}
			return Value{}, cNext
		},
		V + "fmtNative":   fmtNative,
		V + "jsonMarshal": jsonMarshal,
		V + "jsonUnmarsh": jsonUnmarshal,
		V + "flatten":     flatten,
		V + "unflatten":   unflatten,
		V + "typeName": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if i := a[0].iface(); i != nil {
				return strV(i.t.String()), cNext
			}
			return strV("<nil>"), cNext
		},

		"runtime.Gosched": nop, "runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop,
		"internal/race.Acquire": nop, "internal/race.Release": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"internal/race.ReleaseMerge": nop, "internal/race.ReadRange": nop, "internal/race.WriteRange": nop, "internal/race.Read": nop, "internal/race.Write": nop,
		"(*strings.Builder).copyCheck": nop,
		"internal/testlog.Open":        nop, "internal/testlog.Stat": nop, "internal/testlog.Getenv": nop,
		"internal/godebug.New": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ptrV(st.allocType(ex.p, c.fn.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()), 0), cNext
		},
		"(*internal/godebug.Setting).Value":         func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) { return Value{}, cNext },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) { return Value{}, cNext },

		"unicode.IsLetter": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if a[0].term() == nil {
				return boolV(unicode.IsLetter(rune(int32(a[0].n)))), cNext
			}
			return isIn(ex, a[0], unicode.Letter, &letterSpans), cNext
		},
		"unicode.IsDigit": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if a[0].term() == nil {
				return boolV(unicode.IsDigit(rune(int32(a[0].n)))), cNext
			}
			return isIn(ex, a[0], unicode.Digit, &digitSpans), cNext
		},
		"unicode.IsNumber": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			var sp []rspan
			return isIn(ex, a[0], unicode.Number, &sp), cNext
		},
		"unicode.IsUpper": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			var sp []rspan
			return isIn(ex, a[0], unicode.Upper, &sp), cNext
		},
		"unicode.ToLower": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			t := a[0].term()
			if t == nil {
				return intV(uint64(uint32(unicode.ToLower(rune(int32(a[0].n)))))), cNext
			}
			if ex.branch(st, ex.tt.Ult(t, ex.tt.Const(32, 128))) {
				up := ex.tt.And(ex.tt.Ule(ex.tt.Const(32, 'A'), t), ex.tt.Ule(t, ex.tt.Const(32, 'Z')))
				return tv(ex.tt.Ite(up, ex.tt.Bin(OAdd, t, ex.tt.Const(32, 32)), t)), cNext
			}
			v := ex.concretize(st, t, "unicode.ToLower")
			return intV(uint64(uint32(unicode.ToLower(rune(int32(v)))))), cNext
		},
		"strconv.FormatFloat": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			if a[0].isSym() {
				ex.fail("formatting a symbolic float")
			}
			return strV(strconv.FormatFloat(math.Float64frombits(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n))), cNext
		},
		"strconv.ParseFloat": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			v, err := strconv.ParseFloat(goStr(ex, a[0]), int(a[1].n))
			e := Value{}
			if err != nil {
				e = ex.plainErr(err.Error())
			}
			return aggV([]Value{{n: math.Float64bits(v)}, e}), cNext
		},
		"bytes.ToLower":   toLowerBytes,
		"strings.ToLower": toLowerStr,
		"unicode/utf8.Valid": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.utf8Valid(st, ex.bytesOf(st, a[0])), cNext
		},
		"unicode/utf8.ValidString": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.utf8Valid(st, strBytes(a[0])), cNext
		},
		"unicode/utf8.DecodeRune": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			b := ex.bytesOf(st, a[0])
			if len(b) == 0 {
				return aggV([]Value{intV(0xfffd), {}}), cNext
			}
			if len(b) > 4 {
				b = b[:4]
			}
			r, n := ex.decodeRune(st, b)
			return aggV([]Value{r, intV(uint64(n))}), cNext
		},
		"unicode/utf8.DecodeRuneInString": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			b := strBytes(a[0])
			if len(b) == 0 {
				return aggV([]Value{intV(0xfffd), {}}), cNext
			}
			r, n := ex.decodeRune(st, b)
			return aggV([]Value{r, intV(uint64(n))}), cNext
		},
		"unicode/utf8.RuneCountInString": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			n := 0
			b := strBytes(a[0])
			for len(b) > 0 {
				_, w := ex.decodeRune(st, b)
				b = b[w:]
				n++
			}
			return intV(uint64(n)), cNext
		},
		"(*hash/fnv.sum32).Write": fnvWrite,

		"internal/bytealg.IndexByte":           indexByte,
		"internal/bytealg.IndexByteString":     indexByte,
		"internal/bytealg.LastIndexByte":       lastIndexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte,
		"internal/bytealg.Count":               countByte,
		"internal/bytealg.CountString":         countByte,
		"internal/bytealg.Equal": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			x, y := ex.anyBytes(st, a[0]), ex.anyBytes(st, a[1])
			if len(x) != len(y) {
				return boolV(false), cNext
			}
			return tv(ex.bytesEq(x, y)), cNext
		},
		"internal/bytealg.Compare": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.cmp3(mkStr(ex.bytesOf(st, a[0])), mkStr(ex.bytesOf(st, a[1]))), cNext
		},
		"internal/bytealg.CompareString": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.cmp3(a[0], a[1]), cNext
		},
		"bytes.Equal": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			x, y := ex.bytesOf(st, a[0]), ex.bytesOf(st, a[1])
			if len(x) != len(y) {
				return boolV(false), cNext
			}
			return tv(ex.bytesEq(x, y)), cNext
		},
		"bytes.Compare": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.cmp3(mkStr(ex.bytesOf(st, a[0])), mkStr(ex.bytesOf(st, a[1]))), cNext
		},
		"internal/bytealg.MakeNoZero": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			n := int(ex.concInt(st, a[0], &Layout{w: 64, signed: true}, "MakeNoZero"))
			return Value{p: &SliceV{st.allocBytes(n), 0, n, n}}, cNext
		},
		"internal/bytealg.IndexString": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.indexBytes(st, strBytes(a[0]), strBytes(a[1])), cNext
		},
		"internal/bytealg.Index": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.indexBytes(st, ex.bytesOf(st, a[0]), ex.bytesOf(st, a[1])), cNext
		},
		"strings.Index": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.indexBytes(st, strBytes(a[0]), strBytes(a[1])), cNext
		},
		"internal/stringslite.Index": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.indexBytes(st, strBytes(a[0]), strBytes(a[1])), cNext
		},
		"bytes.Index": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return ex.indexBytes(st, ex.bytesOf(st, a[0]), ex.bytesOf(st, a[1])), cNext
		},
		"internal/stringslite.Clone": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) { return a[0], cNext },

		"internal/reflectlite.ValueOf": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			n := ex.p.layout(c.fn.fn.Signature.Results().At(0).Type()).slots
			vs := make([]Value, n)
			vs[0] = Value{p: &NativeV{a[0].iface()}}
			return aggV(vs), cNext
		},
		"(internal/reflectlite.Value).Len": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			i := a[0].agg()[0].p.(*NativeV).data.(*IfaceV)
			if s := i.v.slice(); s != nil {
				return intV(uint64(s.len)), cNext
			}
			return Value{}, cNext
		},
		"internal/reflectlite.Swapper": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			i := a[0].iface()
			s := i.v.slice()
			d := &swapData{}
			if s != nil {
				d.obj, d.off = s.obj, s.off
				d.es = ex.p.layout(i.t.Underlying().(*types.Slice).Elem()).slots
			}
			return Value{p: &FuncV{native: "swap", data: d}}, cNext
		},
		"math.Sqrt": f1(math.Sqrt), "math.sqrt": f1(math.Sqrt), "math.Log": f1(math.Log), "math.Floor": f1(math.Floor), "math.Round": f1(math.Round), "math.Abs": f1(math.Abs), "math.Exp": f1(math.Exp), "math.Ceil": f1(math.Ceil),
		"math.Float64bits":     func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) { return a[0], cNext },
		"math.Float64frombits": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) { return a[0], cNext },
		"math.Float32bits":     func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) { return a[0], cNext },
		"math.Pow": func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
			return floatV(math.Pow(floatOf(a[0], 64), floatOf(a[1], 64)), 64), cNext
		},
	}
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
		prefixIntrinsics = append(prefixIntrinsics, prefixIntr{"sync/atomic." + op, atomicOp(op)})
		prefixIntrinsics = append(prefixIntrinsics, prefixIntr{"internal/runtime/atomic." + op, atomicOp(op)})
	}
}

func f1(g func(float64) float64) intrinsic {
	return func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		return floatV(g(floatOf(a[0], 64)), 64), cNext
	}
}

func inp(kind string, w uint8) intrinsic {
	return func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		return ex.input(st, goStr(ex, a[0]), kind, w), cNext
	}
}

func (ex *Exec) anyBytes(st *State, v Value) []Value {
	switch v.p.(type) {
	case string, *SymStr:
		return strBytes(v)
	}
	return ex.bytesOf(st, v)
}

func (ex *Exec) utf8Valid(st *State, b []Value) Value {
	conc := true
	for i := range b {
		if b[i].p != nil {
			conc = false
			break
		}
	}
	if conc {
		// fast path
		for len(b) > 0 {
			if b[0].n < 0x80 {
				b = b[1:]
				continue
			}
			r, w := ex.decodeRune(st, b)
			if w == 1 && r.p == nil && r.n == 0xfffd {
				return boolV(false)
			}
			b = b[w:]
		}
		return boolV(true)
	}
	for len(b) > 0 {
		r, w := ex.decodeRune(st, b)
		if w == 1 && r.p == nil && r.n == 0xfffd {
			return boolV(false)
		}
		b = b[w:]
	}
	return boolV(true)
}

func (ex *Exec) cmp3(x, y Value) Value {
	lt, eq := ex.strLess(x, y)
	tt := ex.tt
	return tv(tt.Ite(eq, tt.Const(64, 0), tt.Ite(lt, tt.Const(64, ^uint64(0)), tt.Const(64, 1))))
}

func indexByte(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	b := ex.anyBytes(st, a[0])
	for i, x := range b {
		if ex.byteIs(st, x, a[1]) {
			return intV(uint64(i)), cNext
		}
	}
	return intV(^uint64(0)), cNext
}

func lastIndexByte(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	b := ex.anyBytes(st, a[0])
	for i := len(b) - 1; i >= 0; i-- {
		if ex.byteIs(st, b[i], a[1]) {
			return intV(uint64(i)), cNext
		}
	}
	return intV(^uint64(0)), cNext
}

func (ex *Exec) byteIs(st *State, x, y Value) bool {
	if x.p == nil && y.p == nil {
		return x.n == y.n
	}
	return ex.concBool(st, tv(ex.tt.Eq(ex.term(x, 8), ex.term(y, 8))))
}

func countByte(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	n := uint64(0)
	for _, x := range ex.anyBytes(st, a[0]) {
		if ex.byteIs(st, x, a[1]) {
			n++
		}
	}
	return intV(n), cNext
}

func (ex *Exec) indexBytes(st *State, s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if ex.concBool(st, tv(ex.bytesEq(s[i:i+len(sub)], sub))) {
			return intV(uint64(i))
		}
	}
	return intV(^uint64(0))
}

func (ex *Exec) lower(st *State, b []Value) []Value {
	tt := ex.tt
	out := make([]Value, 0, len(b))
	for len(b) > 0 {
		if b[0].p == nil && b[0].n < 0x80 {
			x := b[0].n
			if x >= 'A' && x <= 'Z' {
				x += 32
			}
			out = append(out, intV(x))
			b = b[1:]
			continue
		}
		r, w := ex.decodeRune(st, b)
		if t := r.term(); t != nil && w == 1 {
			c := ex.term(b[0], 8)
			up := tt.And(tt.Ule(tt.Const(8, 'A'), c), tt.Ule(c, tt.Const(8, 'Z')))
			out = append(out, tv(tt.Ite(up, tt.Bin(OAdd, c, tt.Const(8, 32)), c)))
			b = b[1:]
			continue
		}
		var rv rune
		if t := r.term(); t != nil {
			// runes without a lower-case mapping keep their bytes
			if lowerSpans == nil {
				lowerSpans = changeSpans()
			}
			if !ex.concBool(st, tv(ex.spanTerm(t, lowerSpans))) {
				out = append(out, b[:w]...)
				b = b[w:]
				continue
			}
			rv = rune(ex.concretize(st, t, "lower-casing a non-ASCII letter"))
		} else {
			rv = rune(int32(r.n))
			if w == 1 && rv == 0xfffd {
				for _, x := range []byte("\uFFFD") {
					out = append(out, intV(uint64(x)))
				}
				b = b[1:]
				continue
			}
		}
		for _, x := range []byte(string(unicode.ToLower(rv))) {
			out = append(out, intV(uint64(x)))
		}
		b = b[w:]
	}
	return out
}

var lowerSpans []rspan

func changeSpans() []rspan {
	var out []rspan
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.ToLower(r) != r {
			if n := len(out); n > 0 && out[n-1].hi+1 == uint32(r) {
				out[n-1].hi = uint32(r)
			} else {
				out = append(out, rspan{uint32(r), uint32(r)})
			}
		}
	}
	return out
}

func init() { lowerSpans = changeSpans() }

func toLowerBytes(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	b := ex.bytesOf(st, a[0])
	// an invalid byte sequence only occurs outside the ASCII fast path; same result as strings.Map
	return st.newBytes(ex.lower(st, b)), cNext
}

func toLowerStr(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	return mkStr(ex.lower(st, strBytes(a[0]))), cNext
}

func fnvWrite(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	p := a[0]
	b := ex.bytesOf(st, a[1])
	h := st.loadSlot(p.obj(), p.slot())
	if len(st.words) > 0 && h.p == nil && h.n == 2166136261 {
		if s, ok := concreteStr(mkStr(b)); ok {
			for _, w := range st.words {
				if w.word == s {
					st.storeSlot(p.obj(), p.slot(), tv(w.t))
					return aggV([]Value{intV(uint64(len(b))), {}}), cNext
				}
			}
		}
	}
	if h.p == nil {
		conc := true
		for i := range b {
			if b[i].p != nil {
				conc = false
				break
			}
		}
		if conc {
			x := uint32(h.n)
			for i := range b {
				x *= 16777619
				x ^= uint32(b[i].n)
			}
			st.storeSlot(p.obj(), p.slot(), intV(uint64(x)))
			return aggV([]Value{intV(uint64(len(b))), {}}), cNext
		}
	}
	t := ex.term(h, 32)
	for i := range b {
		t = ex.tt.Bin(OMul, t, ex.tt.Const(32, 16777619))
		t = ex.tt.Bin(OBXor, t, ex.tt.ZExt(ex.term(b[i], 8), 32))
	}
	st.storeSlot(p.obj(), p.slot(), tv(t))
	return aggV([]Value{intV(uint64(len(b))), {}}), cNext
}

func atomicOp(op string) intrinsic {
	return func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		p := a[0]
		if p.p == nil {
			ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
			return Value{}, cPanic
		}
		if p.p != ptrMark {
			ex.fail("atomic on %T", p.p)
		}
		if ex.schedPoint(st, th, "atomic", p.n) {
			return Value{}, cStay
		}
		ex.raceAcquire(st, th, p.n)
		ex.raceRelease(st, th, p.n)
		et := c.fn.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		l := ex.p.layout(et)
		cur := st.loadSlot(p.obj(), p.slot())
		bin := func(o Op) Value {
			if cur.p == nil && a[1].p == nil {
				r, _ := foldBin(o, l.w, cur.n, a[1].n)
				return Value{n: r}
			}
			return tv(ex.tt.Bin(o, ex.term(cur, l.w), ex.term(a[1], l.w)))
		}
		switch op {
		case "Load":
			return cur, cNext
		case "Store":
			st.storeSlot(p.obj(), p.slot(), a[1])
			return Value{}, cNext
		case "Swap":
			st.storeSlot(p.obj(), p.slot(), a[1])
			return cur, cNext
		case "Add":
			n := bin(OAdd)
			st.storeSlot(p.obj(), p.slot(), n)
			return n, cNext
		case "And":
			st.storeSlot(p.obj(), p.slot(), bin(OBAnd))
			return cur, cNext
		case "Or":
			st.storeSlot(p.obj(), p.slot(), bin(OBOr))
			return cur, cNext
		case "CompareAndSwap":
			if ex.concBool(st, tv(ex.eqTerm(st, cur, a[1], et, l))) {
				st.storeSlot(p.obj(), p.slot(), a[2])
				return boolV(true), cNext
			}
			return boolV(false), cNext
		}
		return Value{}, cNext
	}
}

// ---- formatting ----

// symDigits renders an unsigned symbolic value in the given base (10 or 16), branching on the number of digits.
func (ex *Exec) symDigits(st *State, t *Term, base uint64, upper bool) []Value {
	tt := ex.tt
	w := t.w
	n := 1
	pow := base
	for pow <= mask(w) && pow != 0 {
		if ex.branchB(st, tt.Ult(t, tt.Const(w, pow))) {
			break
		}
		n++
		if pow > mask(w)/base {
			break
		}
		pow *= base
	}
	out := make([]Value, n)
	cur := t
	for i := n - 1; i >= 0; i-- {
		var d *Term
		if base == 16 {
			d = tt.Bin(OBAnd, cur, tt.Const(w, 15))
			cur = tt.Bin(OLShr, cur, tt.Const(w, 4))
		} else {
			d = tt.Bin(OURem, cur, tt.Const(w, base))
			cur = tt.Bin(OUDiv, cur, tt.Const(w, base))
		}
		d8 := d
		if w > 8 {
			d8 = tt.Extract(d, 7, 0)
		}
		ch := tt.Bin(OAdd, d8, tt.Const(8, '0'))
		if base == 16 {
			off := uint64('a' - 10)
			if upper {
				off = 'A' - 10
			}
			ch = tt.Ite(tt.Ult(d8, tt.Const(8, 10)), ch, tt.Bin(OAdd, d8, tt.Const(8, off)))
		}
		out[i] = tv(ch)
	}
	return out
}

func (ex *Exec) branchB(st *State, t *Term) bool {
	if t.isConst() {
		return t.v == 1
	}
	return ex.branch(st, t)
}

func fmtNative(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	format := goStr(ex, a[0])
	args := st.sliceVals(a[1], 1)
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, intV(uint64(s[i])))
		}
	}
	k := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			out = append(out, intV(uint64(format[i])))
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[j]
		dir := format[i : j+1]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if k >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		arg := args[k].iface()
		k++
		if arg == nil {
			lit(fmt.Sprintf(dir, nil))
			continue
		}
		l := ex.p.layout(arg.t)
		if l.isStr {
			if s, ok := concreteStr(arg.v); ok {
				lit(fmt.Sprintf(dir, s))
			} else if (verb == 's' || verb == 'v') && len(dir) == 2 {
				out = append(out, strBytes(arg.v)...)
			} else {
				ex.fail("formatting a symbolic string with %s", dir)
			}
			continue
		}
		if l.w != 0 && !l.isFloat {
			if t := arg.v.term(); t != nil {
				if len(dir) == 2 && (verb == 'x' || verb == 'X' || verb == 'd' || verb == 'v') {
					neg := false
					if l.signed && t.umax() > mask(t.w)>>1 {
						neg = ex.branchB(st, ex.tt.Slt(t, ex.tt.Const(t.w, 0)))
					}
					if neg {
						out = append(out, intV('-'))
						t = ex.tt.Neg(t)
					}
					base := uint64(10)
					if verb == 'x' || verb == 'X' {
						base = 16
					}
					out = append(out, ex.symDigits(st, t, base, verb == 'X')...)
					continue
				}
				arg = &IfaceV{arg.t, Value{n: ex.concretize(st, t, "formatted number")}}
			}
			lit(fmt.Sprintf(dir, nativeInt(arg.v.n, l)))
			continue
		}
		if l.isBool {
			lit(fmt.Sprintf(dir, ex.concBool(st, arg.v)))
			continue
		}
		if l.isFloat {
			if l.w == 32 {
				lit(fmt.Sprintf(dir, float32(floatOf(arg.v, 32))))
			} else {
				lit(fmt.Sprintf(dir, floatOf(arg.v, 64)))
			}
			continue
		}
		if s, ok := arg.t.Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
			bv := st.bytesToStr(arg.v)
			if cs, ok := concreteStr(bv); ok {
				lit(fmt.Sprintf(dir, []byte(cs)))
			} else if verb == 's' {
				out = append(out, strBytes(bv)...)
			} else {
				ex.fail("formatting symbolic bytes with %s", dir)
			}
			continue
		}
		lit("<" + arg.t.String() + ">")
	}
	return mkStr(out), cNext
}

func nativeInt(n uint64, l *Layout) any {
	if l.signed {
		switch l.w {
		case 8:
			return int8(n)
		case 16:
			return int16(n)
		case 32:
			return int32(n)
		}
		return int64(n)
	}
	switch l.w {
	case 8:
		return uint8(n)
	case 16:
		return uint16(n)
	case 32:
		return uint32(n)
	}
	return n
}

// ---- JSON (only what is needed for typed plain data) ----

func (ex *Exec) jsonEnc(st *State, sb *[]Value, t types.Type, v Value, prefix, indent string) {
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			*sb = append(*sb, intV(uint64(s[i])))
		}
	}
	nl := func(p string) {
		if indent != "" {
			lit("\n" + p)
		}
	}
	l := ex.p.layout(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case l.isStr:
			s, ok := concreteStr(v)
			if !ok {
				ex.fail("json of a symbolic string")
			}
			b, _ := json.Marshal(s)
			lit(string(b))
		case l.isBool:
			lit(strconv.FormatBool(ex.concBool(st, v)))
		case l.isFloat:
			b, _ := json.Marshal(floatOf(v, l.w))
			lit(string(b))
		default:
			if tm := v.term(); tm != nil {
				if l.signed && tm.umax() > mask(tm.w)>>1 && ex.branchB(st, ex.tt.Slt(tm, ex.tt.Const(tm.w, 0))) {
					lit("-")
					tm = ex.tt.Neg(tm)
				}
				*sb = append(*sb, ex.symDigits(st, tm, 10, false)...)
			} else {
				lit(fmt.Sprint(nativeInt(v.n, l)))
			}
		}
	case *types.Pointer:
		if v.p == nil {
			lit("null")
			return
		}
		el := u.Elem()
		var ev Value
		if isAggregate(el) {
			ev = aggV(st.readRange(v.obj(), v.slot(), ex.p.layout(el).slots))
		} else {
			ev = st.loadSlot(v.obj(), v.slot())
		}
		ex.jsonEnc(st, sb, el, ev, prefix, indent)
	case *types.Struct:
		vs := v.agg()
		lit("{")
		first := true
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			name, skip, omit := jsonName(f.Name(), u.Tag(i))
			if skip {
				continue
			}
			fl := ex.p.layout(f.Type())
			var fv Value
			if isAggregate(f.Type()) {
				fv = aggV(vs[l.fields[i] : l.fields[i]+fl.slots])
			} else {
				fv = vs[l.fields[i]]
			}
			if omit && !isAggregate(f.Type()) && fv.p == nil && fv.n == 0 {
				continue
			}
			if !first {
				lit(",")
			}
			first = false
			nl(prefix + indent)
			b, _ := json.Marshal(name)
			lit(string(b) + ":")
			if indent != "" {
				lit(" ")
			}
			ex.jsonEnc(st, sb, f.Type(), fv, prefix+indent, indent)
		}
		if !first {
			nl(prefix)
		}
		lit("}")
	case *types.Slice, *types.Array:
		var vals []Value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			if v.p == nil {
				lit("null")
				return
			}
			vals = st.sliceVals(v, ex.p.layout(et).slots)
		} else {
			et = u.(*types.Array).Elem()
			vals = v.agg()
		}
		es := ex.p.layout(et).slots
		lit("[")
		n := 0
		if es > 0 {
			n = len(vals) / es
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				lit(",")
			}
			nl(prefix + indent)
			var ev Value
			if isAggregate(et) {
				ev = aggV(vals[i*es : (i+1)*es])
			} else {
				ev = vals[i*es]
			}
			ex.jsonEnc(st, sb, et, ev, prefix+indent, indent)
		}
		if n > 0 {
			nl(prefix)
		}
		lit("]")
	case *types.Interface:
		i := v.iface()
		if i == nil {
			lit("null")
			return
		}
		ex.jsonEnc(st, sb, i.t, i.v, prefix, indent)
	default:
		ex.fail("json of %s", t)
	}
}

func jsonName(n, tag string) (string, bool, bool) {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return n, false, false
	}
	s := tag[i+6:]
	s = s[:strings.IndexByte(s, '"')]
	if s == "-" {
		return "", true, false
	}
	parts := strings.Split(s, ",")
	omit := false
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omit = true
		}
	}
	if parts[0] != "" {
		n = parts[0]
	}
	return n, false, omit
}

func jsonMarshal(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	i := a[0].iface()
	var out []Value
	if i == nil {
		return st.strToBytes(strV("null")), cNext
	}
	ex.jsonEnc(st, &out, i.t, i.v, goStr(ex, a[1]), goStr(ex, a[2]))
	return st.newBytes(out), cNext
}

// jsonUnmarshal(data, ptr) ok. The data must be concrete, except that digits may be symbolic (they are case-split).
func jsonUnmarshal(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	b := ex.bytesOf(st, a[0])
	buf := make([]byte, len(b))
	for i, v := range b {
		if t := v.term(); t != nil {
			buf[i] = byte(ex.concretize(st, t, "JSON text"))
		} else {
			buf[i] = byte(v.n)
		}
	}
	i := a[1].iface()
	pt := i.t.Underlying().(*types.Pointer)
	d := json.NewDecoder(bytes.NewReader(buf))
	d.UseNumber()
	var g any
	// Unmarshal checks the whole text first
	if !json.Valid(buf) {
		return boolV(false), cNext
	}
	if err := d.Decode(&g); err != nil {
		return boolV(false), cNext
	}
	return boolV(ex.jsonDec(st, g, pt.Elem(), i.v.obj(), i.v.slot())), cNext
}

func (ex *Exec) jsonDec(st *State, g any, t types.Type, id uint32, slot int) bool {
	l := ex.p.layout(t)
	if g == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case l.isStr:
			s, ok := g.(string)
			if !ok {
				return false
			}
			st.storeSlot(id, slot, strV(s))
		case l.isBool:
			s, ok := g.(bool)
			if !ok {
				return false
			}
			st.storeSlot(id, slot, boolV(s))
		case l.isFloat:
			s, ok := g.(json.Number)
			if !ok {
				return false
			}
			f, err := s.Float64()
			if err != nil {
				return false
			}
			st.storeSlot(id, slot, floatV(f, l.w))
		default:
			s, ok := g.(json.Number)
			if !ok {
				return false
			}
			if l.signed {
				n, err := strconv.ParseInt(string(s), 10, int(l.w))
				if err != nil {
					return false
				}
				st.storeSlot(id, slot, intV(uint64(n)&mask(l.w)))
			} else {
				n, err := strconv.ParseUint(string(s), 10, int(l.w))
				if err != nil {
					return false
				}
				st.storeSlot(id, slot, intV(n))
			}
		}
		return true
	case *types.Struct:
		m, ok := g.(map[string]any)
		if !ok {
			return false
		}
		res := true
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			name, skip, _ := jsonName(f.Name(), u.Tag(i))
			if skip {
				continue
			}
			for k, x := range m {
				if strings.EqualFold(k, name) {
					if !ex.jsonDec(st, x, f.Type(), id, slot+l.fields[i]) {
						res = false
					}
				}
			}
		}
		return res
	}
	ex.fail("json into %s", t)
	return false
}

// flatten encodes plain data big- or little-endian (encoding/binary.Write).
func flatten(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	i := a[0].iface()
	big := a[1].n != 0
	var out []Value
	var enc func(t types.Type, v Value)
	enc = func(t types.Type, v Value) {
		l := ex.p.layout(t)
		switch u := t.Underlying().(type) {
		case *types.Basic:
			w := int(l.w)
			if l.isBool {
				out = append(out, tv(ex.tt.Ite(ex.boolTerm(v), ex.tt.Const(8, 1), ex.tt.Const(8, 0))))
				return
			}
			if w == 0 {
				ex.fail("binary.Write of %s", t)
			}
			tm := ex.term(v, l.w)
			for k := 0; k < w/8; k++ {
				lo := uint8(8 * k)
				if big {
					lo = uint8(w - 8 - 8*k)
				}
				out = append(out, tv(ex.tt.Extract(tm, lo+7, lo)))
			}
		case *types.Pointer:
			el := u.Elem()
			if isAggregate(el) {
				enc(el, aggV(st.readRange(v.obj(), v.slot(), ex.p.layout(el).slots)))
			} else {
				enc(el, st.loadSlot(v.obj(), v.slot()))
			}
		case *types.Struct:
			vs := v.agg()
			for k := 0; k < u.NumFields(); k++ {
				ft := u.Field(k).Type()
				fl := ex.p.layout(ft)
				if isAggregate(ft) {
					enc(ft, aggV(vs[l.fields[k]:l.fields[k]+fl.slots]))
				} else {
					enc(ft, vs[l.fields[k]])
				}
			}
		case *types.Slice, *types.Array:
			var vals []Value
			var et types.Type
			if s, ok := u.(*types.Slice); ok {
				et = s.Elem()
				vals = st.sliceVals(v, ex.p.layout(et).slots)
			} else {
				et = u.(*types.Array).Elem()
				vals = v.agg()
			}
			es := ex.p.layout(et).slots
			for k := 0; k+es <= len(vals); k += es {
				if isAggregate(et) {
					enc(et, aggV(vals[k:k+es]))
				} else {
					enc(et, vals[k])
				}
			}
		default:
			ex.fail("binary.Write of %s", t)
		}
	}
	enc(i.t, i.v)
	return st.newBytes(out), cNext
}

// unflatten(data, ptr, big) decodes into *ptr; returns the number of bytes used, or needs to be called with enough data.
func unflatten(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
	b := ex.bytesOf(st, a[0])
	i := a[1].iface()
	big := a[2].n != 0
	pos := 0
	var dec func(t types.Type, id uint32, slot int)
	dec = func(t types.Type, id uint32, slot int) {
		l := ex.p.layout(t)
		switch u := t.Underlying().(type) {
		case *types.Basic:
			w := int(l.w)
			if w == 0 {
				ex.fail("binary.Read of %s", t)
			}
			n := w / 8
			if pos+n > len(b) {
				pos += n
				return
			}
			var tm *Term
			for k := 0; k < n; k++ {
				j := k
				if !big {
					j = n - 1 - k
				}
				x := ex.term(b[pos+j], 8)
				if tm == nil {
					tm = x
				} else {
					tm = ex.tt.Concat(tm, x)
				}
			}
			pos += n
			st.storeSlot(id, slot, tv(tm))
		case *types.Struct:
			for k := 0; k < u.NumFields(); k++ {
				dec(u.Field(k).Type(), id, slot+l.fields[k])
			}
		case *types.Array:
			es := ex.p.layout(u.Elem()).slots
			for k := 0; k < int(u.Len()); k++ {
				dec(u.Elem(), id, slot+k*es)
			}
		default:
			ex.fail("binary.Read of %s", t)
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Pointer:
		dec(u.Elem(), i.v.obj(), i.v.slot())
	case *types.Slice:
		if s := i.v.slice(); s != nil {
			es := ex.p.layout(u.Elem()).slots
			for k := 0; k < s.len; k++ {
				dec(u.Elem(), s.obj, s.off+k*es)
			}
		}
	default:
		ex.fail("binary.Read into %s", i.t)
	}
	return intV(uint64(pos)), cNext
}
