package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	opNop opcode = iota
	opAlloc
	opBin
	opCmp
	opUn
	opLoad
	opStore
	opCall
	opGo
	opDefer
	opField
	opFieldAddr
	opIndex
	opIndexAddr
	opIf
	opJump
	opReturn
	opPanic
	opRunDefers
	opPhi
	opExtract
	opConvert
	opChangeType
	opMakeIface
	opMakeSlice
	opMakeMap
	opMakeChan
	opMakeClosure
	opMapUpdate
	opLookup
	opRange
	opNext
	opSlice
	opTypeAssert
	opSend
	opRecv
	opSelect
	opSliceToArr
	opUnsupported
)

type Instr struct {
	op      opcode
	dst     int32
	a, b, c int32
	d       int32
	tok     token.Token
	args    []int32
	typ     types.Type // result or relevant type
	typ2    types.Type
	lay     *Layout
	lay2    *Layout
	n       int
	flag    bool
	callee  *Func
	method  *types.Func
	builtin string
	raw     ssa.Instruction
	phis    []phiMove
}

type phiMove struct{ dst, src int32 }

type Block struct {
	ins   []Instr
	succs []int
	preds []int
	// phi moves per predecessor index
	phi [][]phiMove
}

type Func struct {
	fn      *ssa.Function
	name    string
	once    sync.Once
	blocks  []Block
	nregs   int
	consts  []Value
	nparam  int
	intr    intrinsic
	model   *Func // redirect
	fast    fastFn
	recov   int // recover block or -1
	nofn    bool
	inRepo  bool
	std     bool // of the standard library
	parents []*types.Type

	liveOnce sync.Once
	live     *liveInfo
}

func (p *Prog) fn(f *ssa.Function) *Func {
	if x, ok := p.funcs.Load(f); ok {
		return x.(*Func)
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	nf := &Func{fn: f, name: name, recov: -1}
	if f.Pkg != nil {
		pp := f.Pkg.Pkg.Path()
		nf.std = !strings.HasPrefix(pp, modPath)
		nf.inRepo = strings.HasPrefix(pp, modPath) && pp != vxPath && !strings.Contains(p.fset.Position(f.Pos()).Filename, "zz_verif_")
	}
	nf.intr = intrinsics[name]
	nf.fast = fastFns[name]
	if f.Synthetic == "package initializer" {
		nf.intr = nop // initBase runs the initialisers in dependency order
	}
	if nf.intr == nil {
		for _, pi := range prefixIntrinsics {
			if strings.HasPrefix(name, pi.prefix) {
				nf.intr = pi.f
				break
			}
		}
	}
	if nf.intr == nil {
		if m := p.redirect[name]; m != nil {
			nf.model = p.fn(m)
		}
	}
	x, _ := p.funcs.LoadOrStore(f, nf)
	return x.(*Func)
}

func (f *Func) ready(p *Prog) {
	f.once.Do(func() { p.compile(f) })
}

func (p *Prog) compile(f *Func) {
	sf := f.fn
	f.nparam = len(sf.Params)
	if len(sf.Blocks) == 0 {
		f.nofn = true
		return
	}
	if f.inRepo {
		p.repoFns.Store(f.name, true)
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) { regs[v] = n; n++ }
	for _, x := range sf.Params {
		add(x)
	}
	for _, x := range sf.FreeVars {
		add(x)
	}
	for _, b := range sf.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.nregs = int(n)
	consts := map[ssa.Value]int32{}
	op := func(v ssa.Value) int32 {
		if v == nil {
			return -1 << 30
		}
		if r, ok := regs[v]; ok {
			return r
		}
		if c, ok := consts[v]; ok {
			return c
		}
		val := p.constVal(v)
		f.consts = append(f.consts, val)
		c := ^int32(len(f.consts) - 1)
		consts[v] = c
		return c
	}
	f.blocks = make([]Block, len(sf.Blocks))
	for bi, b := range sf.Blocks {
		blk := &f.blocks[bi]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, s := range b.Preds {
			blk.preds = append(blk.preds, s.Index)
		}
		blk.phi = make([][]phiMove, len(b.Preds))
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					blk.phi[k] = append(blk.phi[k], phiMove{regs[ph], op(e)})
				}
				continue
			}
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			in := p.compileInstr(f, i, regs, op)
			in.raw = i
			blk.ins = append(blk.ins, in)
		}
	}
	if sf.Recover != nil {
		f.recov = sf.Recover.Index
	}
}

func (p *Prog) constVal(v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return p.constToValue(c.Value, c.Type())
	case *ssa.Global:
		return ptrV(p.globals[c], 0)
	case *ssa.Function:
		return Value{p: &FuncV{fn: p.fn(c)}}
	case *ssa.Builtin:
		return Value{p: &FuncV{native: "builtin " + c.Name()}}
	}
	panic(fmt.Sprintf("constVal %T", v))
}

func (p *Prog) constToValue(c constant.Value, t types.Type) Value {
	l := p.layout(t)
	if c == nil {
		if isAggregate(t) {
			return aggV(make([]Value, l.slots))
		}
		if _, ok := t.Underlying().(*types.Tuple); ok {
			return aggV(make([]Value, l.slots))
		}
		return Value{}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic("const of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolV(constant.BoolVal(c))
	case b.Info()&types.IsString != 0:
		return strV(constant.StringVal(c))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c)
		if b.Kind() == types.Float32 {
			return Value{n: uint64(math.Float32bits(float32(f)))}
		}
		return Value{n: math.Float64bits(f)}
	case b.Info()&types.IsInteger != 0:
		c = constant.ToInt(c)
		if i, ok := constant.Int64Val(c); ok {
			return Value{n: uint64(i) & mask(l.w)}
		}
		u, _ := constant.Uint64Val(c)
		return Value{n: u & mask(l.w)}
	}
	return Value{p: &NativeV{c}}
}

func (p *Prog) compileInstr(f *Func, i ssa.Instruction, regs map[ssa.Value]int32, op func(ssa.Value) int32) (in Instr) {
	if v, ok := i.(ssa.Value); ok {
		in.dst = regs[v]
	} else {
		in.dst = -1
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		in.op = opAlloc
		in.typ = x.Type().Underlying().(*types.Pointer).Elem()
		in.lay = p.layout(in.typ)
		in.flag = x.Heap
	case *ssa.BinOp:
		in.a, in.b, in.tok = op(x.X), op(x.Y), x.Op
		in.typ = x.X.Type()
		in.typ2 = x.Y.Type()
		in.lay = p.layout(in.typ)
		in.lay2 = p.layout(in.typ2)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			in.op = opCmp
		default:
			in.op = opBin
		}
	case *ssa.UnOp:
		in.a, in.tok = op(x.X), x.Op
		in.typ = x.Type()
		switch x.Op {
		case token.MUL:
			in.op = opLoad
			in.lay = p.layout(x.Type())
			in.flag = isAggregate(x.Type())
		case token.ARROW:
			in.op = opRecv
			in.flag = x.CommaOk
			in.typ = x.X.Type().Underlying().(*types.Chan).Elem()
		default:
			in.op = opUn
			in.lay = p.layout(x.Type())
		}
	case *ssa.Store:
		in.op = opStore
		in.a, in.b = op(x.Addr), op(x.Val)
		in.typ = x.Val.Type()
		in.lay = p.layout(in.typ)
		in.flag = isAggregate(in.typ)
	case *ssa.Call:
		in.op = opCall
		p.compileCall(&in, &x.Call, op)
		in.typ = x.Type()
	case *ssa.Go:
		in.op = opGo
		p.compileCall(&in, &x.Call, op)
	case *ssa.Defer:
		in.op = opDefer
		p.compileCall(&in, &x.Call, op)
		in.d = op(x.DeferStack)
	case *ssa.ChangeInterface:
		in.op = opChangeType
		in.a = op(x.X)
	case *ssa.ChangeType:
		in.op = opChangeType
		in.a = op(x.X)
	case *ssa.Convert:
		in.op = opConvert
		in.a = op(x.X)
		in.typ, in.typ2 = x.Type(), x.X.Type()
		in.lay, in.lay2 = p.layout(in.typ), p.layout(in.typ2)
	case *ssa.MultiConvert:
		in.op = opConvert
		in.a = op(x.X)
		in.typ, in.typ2 = x.Type(), x.X.Type()
		in.lay, in.lay2 = p.layout(in.typ), p.layout(in.typ2)
	case *ssa.Extract:
		in.op = opExtract
		in.a, in.n = op(x.Tuple), x.Index
	case *ssa.Field:
		in.op = opField
		in.a = op(x.X)
		l := p.layout(x.X.Type())
		in.n = l.fields[x.Field]
		in.typ = x.Type()
		in.lay = p.layout(in.typ)
		in.flag = isAggregate(in.typ)
	case *ssa.FieldAddr:
		in.op = opFieldAddr
		in.a = op(x.X)
		l := p.layout(x.X.Type().Underlying().(*types.Pointer).Elem())
		in.n = l.fields[x.Field]
	case *ssa.If:
		in.op = opIf
		in.a = op(x.Cond)
	case *ssa.Jump:
		in.op = opJump
	case *ssa.Index:
		in.op = opIndex
		in.a, in.b = op(x.X), op(x.Index)
		in.typ, in.typ2 = x.X.Type(), x.Type()
		in.lay = p.layout(x.Type())
		in.lay2 = p.layout(x.Index.Type())
		in.flag = isAggregate(x.Type())
	case *ssa.IndexAddr:
		in.op = opIndexAddr
		in.a, in.b = op(x.X), op(x.Index)
		in.typ = x.X.Type()
		el := x.Type().Underlying().(*types.Pointer).Elem()
		in.lay = p.layout(el)
		in.lay2 = p.layout(x.Index.Type())
		if pt, ok := in.typ.Underlying().(*types.Pointer); ok {
			in.flag = true
			in.n = int(pt.Elem().Underlying().(*types.Array).Len())
		}
	case *ssa.Lookup:
		in.op = opLookup
		in.a, in.b = op(x.X), op(x.Index)
		in.typ, in.typ2 = x.X.Type(), x.Index.Type()
		in.lay2 = p.layout(x.Index.Type())
		in.flag = x.CommaOk
		if mt, ok := in.typ.Underlying().(*types.Map); ok {
			in.lay = p.layout(mt.Elem())
		}
	case *ssa.MakeChan:
		in.op = opMakeChan
		in.a = op(x.Size)
		in.lay2 = p.layout(x.Size.Type())
	case *ssa.MakeClosure:
		in.op = opMakeClosure
		in.callee = p.fn(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			in.args = append(in.args, op(b))
		}
	case *ssa.MakeInterface:
		in.op = opMakeIface
		in.a = op(x.X)
		in.typ = x.X.Type()
	case *ssa.MakeMap:
		in.op = opMakeMap
		in.typ = x.Type()
	case *ssa.MakeSlice:
		in.op = opMakeSlice
		in.a, in.b = op(x.Len), op(x.Cap)
		in.typ = x.Type().Underlying().(*types.Slice).Elem()
		in.lay = p.layout(x.Len.Type())
		in.lay2 = p.layout(x.Cap.Type())
	case *ssa.MapUpdate:
		in.op = opMapUpdate
		in.a, in.b, in.c = op(x.Map), op(x.Key), op(x.Value)
		in.typ = x.Map.Type()
	case *ssa.Next:
		in.op = opNext
		in.a = op(x.Iter)
		in.flag = x.IsString
		in.typ = x.Type()
	case *ssa.Panic:
		in.op = opPanic
		in.a = op(x.X)
	case *ssa.Range:
		in.op = opRange
		in.a = op(x.X)
		in.typ = x.X.Type()
	case *ssa.Return:
		in.op = opReturn
		for _, r := range x.Results {
			in.args = append(in.args, op(r))
		}
	case *ssa.RunDefers:
		in.op = opRunDefers
	case *ssa.Select:
		in.op = opSelect
		in.flag = x.Blocking
		for _, s := range x.States {
			in.args = append(in.args, op(s.Chan), op(s.Send))
		}
	case *ssa.Send:
		in.op = opSend
		in.a, in.b = op(x.Chan), op(x.X)
	case *ssa.Slice:
		in.op = opSlice
		in.a, in.b, in.c, in.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
		in.typ = x.X.Type()
		if pt, ok := in.typ.Underlying().(*types.Pointer); ok {
			in.flag = true
			at := pt.Elem().Underlying().(*types.Array)
			in.n = int(at.Len())
			in.lay = p.layout(at.Elem())
		} else if s, ok := in.typ.Underlying().(*types.Slice); ok {
			in.lay = p.layout(s.Elem())
		}
		in.args = []int32{0, 0, 0}
		for k, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				in.args[k] = int32(p.layout(v.Type()).w)
				if p.layout(v.Type()).signed {
					in.args[k] |= 256
				}
			}
		}
	case *ssa.SliceToArrayPointer:
		in.op = opSliceToArr
		in.a = op(x.X)
		in.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.TypeAssert:
		in.op = opTypeAssert
		in.a = op(x.X)
		in.typ = x.AssertedType
		in.flag = x.CommaOk
		in.typ2 = x.X.Type()
	default:
		in.op = opUnsupported
	}
	return
}

func (p *Prog) compileCall(in *Instr, c *ssa.CallCommon, op func(ssa.Value) int32) {
	in.a = -1 << 30
	if c.IsInvoke() {
		in.method = c.Method
		in.args = append(in.args, op(c.Value))
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			in.builtin = v.Name()
			if len(c.Args) > 0 {
				in.typ2 = c.Args[0].Type()
			}
			if v.Name() == "append" || v.Name() == "copy" {
				in.lay2 = p.layout(c.Args[1].Type())
				if s, ok := in.typ2.Underlying().(*types.Slice); ok {
					in.lay = p.layout(s.Elem())
				}
			}
			for _, a := range c.Args {
				in.phisTypes(p, a.Type())
			}
		case *ssa.Function:
			in.callee = p.fn(v)
		default:
			in.a = op(c.Value)
		}
	}
	for _, a := range c.Args {
		in.args = append(in.args, op(a))
	}
}

func (in *Instr) phisTypes(p *Prog, t types.Type) {
	l := p.layout(t)
	m := phiMove{dst: int32(l.w)}
	if l.signed {
		m.src = 1
	}
	if l.isStr {
		m.src |= 2
	}
	if l.isFloat {
		m.src |= 4
	}
	in.phis = append(in.phis, m)
}
