package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"
)

const noReg = -1 << 30

// Frame is one activation record.
type Frame struct {
	fn      *Func
	blk, ip int
	regs    []Value
	dst     int32 // register of the caller that receives the result (noReg: none)
	defers  []deferred
	unwind  bool // running defers because of a panic
	isDefer bool // called by a defer
	noAdv   bool // the caller's ip must not advance on return (defer calls)
	id      int
	onRet   func(ex *Exec, st *State, th *Thread, res Value) // engine continuation (pure)
}

type deferred struct {
	fn   Value
	args []Value
	in   *Instr
}

type PanicRec struct {
	val       Value
	recovered bool
	where     string
	stack     string
	goexit    bool
}

type waitKind uint8

const (
	wNone waitKind = iota
	wSend
	wRecv
	wSelect
	wLock  // mutex
	wWG    // waitgroup
	wCond  // cond ticket
	wFlock // file lock
	wOther
	wQuiesce
)

type Thread struct {
	id     int
	name   string
	frames []*Frame
	panics []*PanicRec
	// blocking
	wait        waitKind
	waitObj     uint64
	seq         int // queueing order
	sendVal     Value
	selCases    []selCase
	blockReason string
	done        bool
	nspawn      int
	vc          []int32
	fids        int
	pick        int // which of the waiting partners the pending operation meets
	ptKind      string
	ptObj       uint64
	atPoint     bool // before a visible operation
	ready       bool // a scheduling decision was made for the pending op
}

type selCase struct {
	ch   uint32
	send bool
	val  Value
}

type Input struct {
	Name string
	Kind string // u8,u16,u32,u64,int,bool
	T    *Term
	V    uint64 // when concrete
}

type State struct {
	tok     *tokenT
	prog    *Prog
	heap    Heap
	threads []*Thread
	cur     int
	pc      []*Term
	model   *Model
	inputs  []Input
	steps   int64
	stepCap int64 // 0: none
	seq     int
	names   map[string]int // uniquifies input names (copied on fork)
	words   []hashWord     // registered words with arbitrary hash
	reach   []string
	obs     []Observation
	sched   []string // schedule trace (explore mode)
	preempt int
	explore bool
	snap    *snapshot // the heap when the exploration of schedules began
	race    *raceState
	depth   int
	alive   bool
	ending  string
	atomic  int
	nowTick int
	races   []string

	trace  []decision // forks taken so far
	forced []decision // forks to take (a path handed over by another worker)
}

// decision is one fork: a condition, or a value of a term that was (not) chosen.
type decision struct {
	conc  bool
	taken bool
	v     uint64
}

func (st *State) note(d decision) {
	n := len(st.trace)
	st.trace = append(st.trace[:n:n], d)
}

type Observation struct {
	Name string
	V    Value
	Lay  *Layout
}

type hashWord struct {
	word string
	t    *Term
}

type Violation struct {
	Kind   string // assert, panic, deadlock, hang, race
	Msg    string
	Where  string
	Inputs map[string]uint64
	Order  []string
	Words  map[string]uint64
	Sched  []string
	Stack  string
}

type engineError struct{ msg string }

type Exec struct {
	p      *Prog
	tt     *TermTable
	sol    *Solver
	name   string
	params map[string]int64

	initMode bool
	work     []*State
	offer    func(trace []decision) bool // hands a pending path to an idle worker

	// limits
	maxPaths   int
	maxSteps   int64 // per path
	concCap    int
	deadline   time.Time
	giveUp     func() bool // others wait: hand the pending paths over
	give       func([]decision)
	onViol     func(Violation)
	maxViol    int
	explore    bool
	maxPreempt int
	checkRace  bool
	raceStd    bool // accesses by the standard library count too
	raceForce  bool

	// results
	paths         int
	forks         int
	totalSteps    int64
	viols         []Violation
	violKeys      map[string]bool
	incomplete    map[string]int
	unsupported   map[string]int
	reached       map[string]int
	asserts       map[string]int
	assertsSolver int
	assumesDead   int
	fnHit         map[*Func]bool
	obsOut        []map[string]string
	visited       map[uint64]bool
	pruned        int
	nsnap         int
	schedPoints   int
	concCount     map[string]int
	crossEvery    int
	profile       map[string]int
	fastBuf       *bufFields
	fastFile      *fileFields
	pathLens      []int64
	stubs         map[string]int
	freeFrames    [128][]*Frame
	argScratch    [24]Value
	curState      *State
	onPathEnd     func(st *State)
}

func NewExec(p *Prog, params map[string]int64, name string) *Exec {
	tt := NewTermTable()
	return &Exec{p: p, tt: tt, sol: NewSolver(tt), name: name, params: params,
		maxPaths: 1 << 30, maxSteps: 400e6, concCap: 256, maxViol: 3, deadline: time.Now().Add(24 * time.Hour),
		violKeys: map[string]bool{}, incomplete: map[string]int{}, unsupported: map[string]int{}, reached: map[string]int{}, asserts: map[string]int{},
		fnHit: map[*Func]bool{}, visited: map[uint64]bool{}, concCount: map[string]int{}, stubs: map[string]int{}, maxPreempt: -1}
}

func (ex *Exec) fail(format string, a ...any) {
	panic(engineError{fmt.Sprintf(format, a...)})
}

// ---- state cloning ----

func (st *State) fork() *State {
	c := *st
	c.tok = &tokenT{}
	st.tok = &tokenT{}
	c.heap.pages = append([]*heapPage(nil), st.heap.pages...)
	c.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		c.threads[i] = t.clone()
	}
	c.pc = append([]*Term(nil), st.pc...)
	c.inputs = append([]Input(nil), st.inputs...)
	c.words = append([]hashWord(nil), st.words...)
	c.reach = append([]string(nil), st.reach...)
	c.obs = append([]Observation(nil), st.obs...)
	c.sched = append([]string(nil), st.sched...)
	c.races = append([]string(nil), st.races...)
	c.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		c.names[k] = v
	}
	if st.race != nil {
		c.race = st.race.clone()
	}
	return &c
}

func (t *Thread) clone() *Thread {
	c := *t
	c.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		nf := *f
		nf.regs = append([]Value(nil), f.regs...)
		nf.defers = append([]deferred(nil), f.defers...)
		c.frames[i] = &nf
	}
	c.panics = make([]*PanicRec, len(t.panics))
	for i, p := range t.panics {
		np := *p
		c.panics[i] = &np
	}
	c.vc = append([]int32(nil), t.vc...)
	c.selCases = append([]selCase(nil), t.selCases...)
	return &c
}

// ---- constraints ----

func (ex *Exec) known(st *State, c *Term) (bool, bool) {
	if c == ex.tt.T {
		return true, true
	}
	if c == ex.tt.F {
		return false, true
	}
	n := ex.tt.Not(c)
	lo := len(st.pc) - 64
	if lo < 0 {
		lo = 0
	}
	for i := len(st.pc) - 1; i >= lo; i-- {
		if st.pc[i] == c {
			return true, true
		}
		if st.pc[i] == n {
			return false, true
		}
	}
	return false, false
}

func (ex *Exec) addPC(st *State, c *Term) {
	if c != ex.tt.T {
		st.pc = append(st.pc, c)
	}
}

// branch decides a symbolic condition for st, forking the other side when feasible.
func (ex *Exec) branch(st *State, c *Term) bool { return ex.branchAs(st, c, decision{}) }

func (ex *Exec) branchAs(st *State, c *Term, d decision) bool {
	if v, ok := ex.known(st, c); ok {
		return v
	}
	v := st.model.Eval(c) == 1
	other := c
	mine := ex.tt.Not(c)
	if v {
		other, mine = mine, c
	}
	res, m := ex.sol.Check(st.pc, other)
	switch res {
	case Sat:
		if len(st.forced) > 0 {
			e := st.forced[0]
			if e.conc {
				ex.fail("handed-over path diverges")
			}
			st.forced = st.forced[1:]
			st.note(e)
			st.depth++
			if e.taken == v {
				st.pc = append(st.pc, mine)
			} else {
				st.pc = append(st.pc, other)
				st.model = m
			}
			return e.taken
		}
		cl := st.fork()
		cl.pc = append(cl.pc, other)
		cl.model = m
		cl.depth++
		ex.forks++
		ex.work = append(ex.work, cl)
		st.pc = append(st.pc, mine)
		st.depth++
		d.taken = v
		st.note(d)
		d.taken = !v
		cl.note(d)
	case Unknown:
		ex.incomplete["solver gave no verdict on a branch; that side was not explored"]++
		st.pc = append(st.pc, mine)
	}
	return v
}

// assume restricts st to c; false if impossible.
func (ex *Exec) assume(st *State, c *Term) bool {
	if v, ok := ex.known(st, c); ok {
		return v
	}
	if st.model.Eval(c) == 1 {
		st.pc = append(st.pc, c)
		return true
	}
	res, m := ex.sol.Check(st.pc, c)
	switch res {
	case Sat:
		st.pc = append(st.pc, c)
		st.model = m
		return true
	case Unknown:
		ex.incomplete["solver gave no verdict on an assumption; path dropped"]++
	}
	return false
}

// concretize picks a value for t in st, forking the others.
func (ex *Exec) concretize(st *State, t *Term, what string) uint64 {
	if t.isConst() {
		return t.v
	}
	// an equality already on the path?
	lo := len(st.pc) - 64
	if lo < 0 {
		lo = 0
	}
	for i := len(st.pc) - 1; i >= lo; i-- {
		c := st.pc[i]
		if c.op == OEq && c.a == t && c.b.isConst() {
			return c.b.v
		}
	}
	if t.w == 0 {
		return b2u(ex.branch(st, t))
	}
	for len(st.forced) > 0 {
		v := st.model.Eval(t)
		eq := ex.tt.Eq(t, ex.tt.Const(t.w, v))
		res, _ := ex.sol.Check(st.pc, ex.tt.Not(eq))
		if res == Unsat {
			st.pc = append(st.pc, eq)
			return v
		}
		e := st.forced[0]
		if res == Unknown || !e.conc {
			ex.fail("handed-over path diverges")
		}
		st.forced = st.forced[1:]
		st.note(e)
		st.depth++
		eq = ex.tt.Eq(t, ex.tt.Const(t.w, e.v))
		if !e.taken {
			eq = ex.tt.Not(eq)
		}
		if !ex.assume(st, eq) {
			ex.fail("handed-over path diverges")
		}
		if e.taken {
			return e.v
		}
	}
	v := st.model.Eval(t)
	eq := ex.tt.Eq(t, ex.tt.Const(t.w, v))
	if eq == ex.tt.T {
		return v
	}
	// how many values were already excluded on this path
	excl := 0
	for i := len(st.pc) - 1; i >= 0; i-- {
		c := st.pc[i]
		if c.op == ONot && c.a.op == OEq && c.a.a == t && c.a.b.isConst() {
			excl++
		}
	}
	if excl >= ex.concCap {
		ex.incomplete[fmt.Sprintf("more than %d values for %s; the rest not explored", ex.concCap, what)]++
		st.pc = append(st.pc, eq)
		return v
	}
	if ok := ex.branchAs(st, eq, decision{conc: true, v: v}); !ok {
		ex.fail("concretize")
	}
	// when eq is implied, record it anyway for fast lookup
	if n := len(st.pc); n == 0 || st.pc[n-1] != eq {
		st.pc = append(st.pc, eq)
	}
	return v
}

func (ex *Exec) concInt(st *State, v Value, l *Layout, what string) int64 {
	var n uint64
	if t := v.term(); t != nil {
		n = ex.concretize(st, t, what)
	} else {
		n = v.n
	}
	if l != nil && l.signed {
		return sext(n, l.w)
	}
	return int64(n)
}

func (ex *Exec) concBool(st *State, v Value) bool {
	if t := v.term(); t != nil {
		return ex.branch(st, t)
	}
	return v.n != 0
}

func tv(t *Term) Value {
	if t.isConst() {
		return Value{n: t.v}
	}
	return Value{p: t}
}

func (ex *Exec) term(v Value, w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return ex.tt.Const(w, v.n)
}

func (ex *Exec) boolTerm(v Value) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return ex.tt.Bool(v.n != 0)
}

// ---- running ----

func (ex *Exec) newThread(st *State, name string) *Thread {
	t := &Thread{id: len(st.threads), name: name}
	st.threads = append(st.threads, t)
	return t
}

func (ex *Exec) newState(base *State) *State {
	st := base.fork()
	st.model = &Model{vals: map[*Term]uint64{}, memo: map[*Term]uint64{}}
	st.names = map[string]int{}
	st.alive = true
	if ex.explore {
		st.explore = true
		if ex.checkRace {
			st.race = newRaceState()
		}
	}
	return st
}

// Run explores the harness function from the base state, below the given forks.
func (ex *Exec) Run(fn *Func, forced []decision) {
	baseMu.Lock()
	st := ex.newState(ex.p.base)
	baseMu.Unlock()
	th := ex.newThread(st, "main")
	if ex.explore {
		th.vc = []int32{1}
	}
	ex.pushCall(st, th, fn, nil, nil, noReg)
	st.forced = forced
	ex.work = append(ex.work, st)
	for len(ex.work) > 0 {
		for len(ex.work) > 1 && ex.offer != nil && ex.offer(ex.work[0].trace) {
			ex.work = ex.work[1:]
		}
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		if time.Now().After(ex.deadline) || stopAll.Err() != nil || memStop.Load() {
			ex.incomplete["time limit: unexplored paths remain"] += 1 + len(ex.work)
			break
		}
		if ex.giveUp != nil && ex.giveUp() {
			ex.give(s.trace)
			for _, s := range ex.work {
				ex.give(s.trace)
			}
			break
		}
		if ex.paths >= ex.maxPaths {
			ex.incomplete["path limit: unexplored paths remain"] += 1 + len(ex.work)
			break
		}
		if len(ex.viols) >= ex.maxViol {
			ex.incomplete["stopped after violations"] += 1 + len(ex.work)
			break
		}
		ex.runPath(s)
	}
	ex.sol.Close()
}

func (ex *Exec) runPath(st *State) {
	ex.curState = st
	start := st.steps
	defer func() {
		ex.totalSteps += st.steps - start
		if r := recover(); r != nil {
			if e, ok := r.(engineError); ok {
				ex.unsupported[e.msg+" at "+ex.where(st)]++
				if debugStack {
					fmt.Println("UNSUPPORTED", e.msg, ex.stack(st))
				}
				ex.paths++
				return
			}
			if debugStack {
				fmt.Println("ENGINE PANIC", r, ex.stack(st))
				panic(r)
			}
			ex.unsupported[fmt.Sprintf("engine: %v at %s", r, ex.where(st))]++
			ex.paths++
		}
	}()
	for st.alive {
		ex.runThread(st)
		if !st.alive {
			break
		}
		ex.schedule(st)
	}
	if debugStack && ex.explore {
		fmt.Println("PATH", st.ending, st.steps-start, ex.repoWhere(st.threads[0]), strings.Join(st.sched, " "))
	}
	if st.ending != "pruned" && st.ending != "assume" {
		ex.paths++
		ex.pathLens = append(ex.pathLens, st.steps)
		for _, r := range st.reach {
			ex.reached[r]++
		}
		if ex.onPathEnd != nil {
			ex.onPathEnd(st)
		}
	}
	if st.ending == "assume" {
		ex.assumesDead++
	}
}

func (ex *Exec) kill(st *State, why string) {
	st.alive = false
	st.ending = why
}

func (ex *Exec) where(st *State) string {
	if st.cur < 0 || st.cur >= len(st.threads) {
		return "?"
	}
	th := st.threads[st.cur]
	for i := len(th.frames) - 1; i >= 0; i-- {
		f := th.frames[i]
		if f.ip >= 0 && f.blk < len(f.fn.blocks) && f.ip < len(f.fn.blocks[f.blk].ins) {
			return ex.p.pos(f.fn.blocks[f.blk].ins[f.ip].raw) + " (" + f.fn.name + ")"
		}
	}
	return "?"
}

func (ex *Exec) threadStack(th *Thread) string {
	var sb strings.Builder
	for i := len(th.frames) - 1; i >= 0; i-- {
		f := th.frames[i]
		pos := "?"
		if f.ip >= 0 && f.blk < len(f.fn.blocks) && f.ip < len(f.fn.blocks[f.blk].ins) {
			pos = ex.p.pos(f.fn.blocks[f.blk].ins[f.ip].raw)
		}
		fmt.Fprintf(&sb, "    %s %s\n", f.fn.name, pos)
	}
	return sb.String()
}

func (ex *Exec) stack(st *State) string {
	var sb strings.Builder
	for i, th := range st.threads {
		if th.done {
			continue
		}
		mark := ""
		if i == st.cur {
			mark = " *"
		}
		fmt.Fprintf(&sb, "  goroutine %s%s %s\n%s", th.name, mark, th.blockReason, ex.threadStack(th))
	}
	return sb.String()
}

// repoWhere gives the innermost repository position on the stack.
func (ex *Exec) repoWhere(th *Thread) string {
	for i := len(th.frames) - 1; i >= 0; i-- {
		f := th.frames[i]
		if f.fn.inRepo && f.blk < len(f.fn.blocks) && f.ip < len(f.fn.blocks[f.blk].ins) {
			return ex.p.pos(f.fn.blocks[f.blk].ins[f.ip].raw) + " " + f.fn.name
		}
	}
	return ""
}

func (ex *Exec) addViolation(st *State, kind, msg string, m *Model) {
	th := st.threads[st.cur]
	w := ex.repoWhere(th)
	key := kind + "|" + msg
	if ex.violKeys[key] {
		return
	}
	ex.violKeys[key] = true
	v := Violation{Kind: kind, Msg: msg, Where: w, Inputs: map[string]uint64{}, Words: map[string]uint64{}, Stack: ex.stack(st)}
	for _, in := range st.inputs {
		x := in.V
		if in.T != nil {
			x = m.Eval(in.T)
		}
		v.Inputs[in.Name] = x
		v.Order = append(v.Order, in.Name)
	}
	for _, hw := range st.words {
		v.Words[hw.word] = m.Eval(hw.t)
	}
	v.Sched = append([]string(nil), st.sched...)
	ex.viols = append(ex.viols, v)
	if ex.onViol != nil {
		ex.onViol(v)
	}
}

func (ex *Exec) pushCall(st *State, th *Thread, fn *Func, args []Value, binds []Value, dst int32) *Frame {
	for fn.model != nil {
		fn = fn.model
		ex.stubs[fn.name]++
	}
	fn.ready(ex.p)
	if fn.nofn {
		ex.fail("no body: %s", fn.name)
	}
	if !ex.fnHit[fn] {
		ex.fnHit[fn] = true
	}
	if len(th.frames) > 2000 {
		ex.fail("call depth")
	}
	var f *Frame
	if fn.nregs < len(ex.freeFrames) {
		if l := ex.freeFrames[fn.nregs]; len(l) > 0 {
			f = l[len(l)-1]
			ex.freeFrames[fn.nregs] = l[:len(l)-1]
			*f = Frame{fn: fn, dst: dst, regs: f.regs, id: th.fids}
		}
	}
	if f == nil {
		f = &Frame{fn: fn, dst: dst, regs: make([]Value, fn.nregs), id: th.fids}
	}
	th.fids++
	copy(f.regs, args)
	copy(f.regs[fn.nparam:], binds)
	th.frames = append(th.frames, f)
	return f
}

// ret pops the top frame with result v.
func (ex *Exec) ret(st *State, th *Thread, v Value) {
	n := len(th.frames) - 1
	f := th.frames[n]
	th.frames = th.frames[:n]
	if n == 0 {
		th.done = true
		return
	}
	c := th.frames[n-1]
	if k := len(f.regs); k < len(ex.freeFrames) && len(ex.freeFrames[k]) < 64 {
		if f.onRet == nil {
			ex.freeFrames[k] = append(ex.freeFrames[k], f)
		}
	}
	if f.isDefer {
		return // caller continues with RunDefers or unwinding
	}
	if f.onRet != nil {
		f.onRet(ex, st, th, v)
		return
	}
	if f.dst != noReg {
		c.regs[f.dst] = v
	}
	c.ip++
}

func (ex *Exec) gotoBlock(f *Frame, succ int) {
	b := &f.fn.blocks[f.blk]
	t := b.succs[succ]
	tb := &f.fn.blocks[t]
	if len(tb.phi) > 0 {
		// predecessor index
		pi := -1
		if len(tb.preds) == 1 {
			pi = 0
		} else {
			// both successors may be the same block
			cnt := 0
			for k, p := range tb.preds {
				if p == f.blk {
					if pi < 0 {
						pi = k
					}
					cnt++
				}
			}
			if cnt > 1 && succ == 1 {
				for k := len(tb.preds) - 1; k >= 0; k-- {
					if tb.preds[k] == f.blk {
						pi = k
						break
					}
				}
			}
		}
		mv := tb.phi[pi]
		switch len(mv) {
		case 0:
		case 1:
			f.regs[mv[0].dst] = f.get(mv[0].src)
		default:
			var tmp [8]Value
			ts := tmp[:0]
			for _, m := range mv {
				ts = append(ts, f.get(m.src))
			}
			for k, m := range mv {
				f.regs[m.dst] = ts[k]
			}
		}
	}
	f.blk = t
	f.ip = 0
}

func (f *Frame) get(i int32) Value {
	if i >= 0 {
		return f.regs[i]
	}
	return f.fn.consts[^i]
}

type ctl uint8

const (
	cNext  ctl = iota // store result, advance
	cCall             // a frame was pushed
	cBlock            // thread blocked, retry
	cPanic            // panic raised (frames adjusted)
	cStay             // re-execute
	cYield            // executed, then give up the processor
)

func (ex *Exec) runThread(st *State) {
	th := st.threads[st.cur]
	for st.alive && !th.done && th.wait == wNone && st.cur == th.id {
		f := th.frames[len(th.frames)-1]
		if f.unwind {
			ex.unwindStep(st, th)
			continue
		}
		ins := f.fn.blocks[f.blk].ins
		in := &ins[f.ip]
		st.steps++
		if st.steps&0x3f == 0 && ex.profile != nil {
			ex.profile[f.fn.name]++
		}
		if st.steps&0xffff == 0 {
			if st.steps > ex.maxSteps || st.stepCap > 0 && st.steps > st.stepCap {
				ex.stepLimit(st, th)
				return
			}
			if time.Now().After(ex.deadline) || stopAll.Err() != nil || memStop.Load() {
				ex.incomplete["time limit: unexplored paths remain"]++
				ex.kill(st, "deadline")
				return
			}
		}
		switch in.op {
		case opBin:
			x, y := f.get(in.a), f.get(in.b)
			v, c := ex.binop(st, th, in, x, y)
			if c == cPanic {
				continue
			}
			f.regs[in.dst] = v
			f.ip++
		case opCmp:
			f.regs[in.dst] = ex.compare(st, in.tok, f.get(in.a), f.get(in.b), in.typ, in.typ2, in.lay)
			f.ip++
		case opLoad:
			v, c := ex.load(st, th, in, f.get(in.a))
			if c != cNext {
				continue
			}
			f.regs[in.dst] = v
			f.ip++
		case opStore:
			if ex.store(st, th, in, f.get(in.a), f.get(in.b)) != cNext {
				continue
			}
			f.ip++
		case opJump:
			ex.gotoBlock(f, 0)
		case opIf:
			v := f.get(in.a)
			b := v.n != 0
			if t, ok := v.p.(*Term); ok {
				b = ex.branch(st, t)
			}
			if b {
				ex.gotoBlock(f, 0)
			} else {
				ex.gotoBlock(f, 1)
			}
		case opFieldAddr:
			p := f.get(in.a)
			if sp, ok := p.p.(*SymPtr); ok {
				np := *sp
				np.sub += in.n
				f.regs[in.dst] = Value{p: &np}
				f.ip++
				continue
			}
			if p.p == nil {
				ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
				continue
			}
			f.regs[in.dst] = Value{p: ptrMark, n: p.n + uint64(in.n)}
			f.ip++
		case opIndexAddr:
			if ex.indexAddr(st, th, f, in) == cNext {
				f.ip++
			}
		case opAlloc:
			f.regs[in.dst] = ptrV(st.allocType(ex.p, in.typ), 0)
			f.ip++
		case opUn:
			f.regs[in.dst] = ex.unop(in, f.get(in.a))
			f.ip++
		case opConvert:
			v, c := ex.convert(st, th, in, f.get(in.a))
			if c != cNext {
				continue
			}
			f.regs[in.dst] = v
			f.ip++
		case opChangeType:
			f.regs[in.dst] = f.get(in.a)
			f.ip++
		case opExtract:
			f.regs[in.dst] = f.get(in.a).agg()[in.n]
			f.ip++
		case opField:
			a := f.get(in.a).agg()
			if in.flag {
				f.regs[in.dst] = aggV(a[in.n : in.n+in.lay.slots : in.n+in.lay.slots])
			} else {
				f.regs[in.dst] = a[in.n]
			}
			f.ip++
		case opIndex:
			if ex.index(st, th, f, in) == cNext {
				f.ip++
			}
		case opCall:
			ex.doCall(st, th, f, in)
		case opReturn:
			var v Value
			switch len(in.args) {
			case 0:
			case 1:
				v = f.get(in.args[0])
			default:
				vs := make([]Value, len(in.args))
				for i, a := range in.args {
					vs[i] = f.get(a)
				}
				v = aggV(vs)
			}
			ex.ret(st, th, v)
		case opGo:
			fv, args := ex.callTarget(st, th, f, in)
			if fv.p == nil {
				if len(th.panics) == 0 {
					ex.goPanicStr(st, th, "go of nil func value")
				}
				continue
			}
			ex.spawn(st, th, fv, args, in)
			f.ip++
		case opDefer:
			fv, args := ex.callTarget(st, th, f, in)
			if fv.p == nil && len(th.panics) > 0 && f.unwind {
				continue
			}
			tf := f
			if in.d != noReg {
				if d := f.get(in.d); d.p != nil {
					fid := int(d.p.(*NativeV).data.(int))
					for _, x := range th.frames {
						if x.id == fid {
							tf = x
						}
					}
				}
			}
			tf.defers = append(tf.defers, deferred{fv, args, in})
			f.ip++
		case opRunDefers:
			n := len(f.defers)
			if n == 0 {
				f.ip++
				continue
			}
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			c := ex.callDeferred(st, th, f, d)
			if c == cBlock || c == cStay {
				f.defers = append(f.defers, d)
			}
		case opPanic:
			v := f.get(in.a)
			ex.goPanic(st, th, v)
		case opMakeIface:
			v := f.get(in.a)
			f.regs[in.dst] = Value{p: &IfaceV{in.typ, v}}
			f.ip++
		case opMakeClosure:
			b := make([]Value, len(in.args))
			for i, a := range in.args {
				b[i] = f.get(a)
			}
			f.regs[in.dst] = Value{p: &FuncV{fn: in.callee, binds: b}}
			f.ip++
		case opMakeSlice:
			if ex.makeSlice(st, th, f, in) == cNext {
				f.ip++
			}
		case opSlice:
			if ex.slice(st, th, f, in) == cNext {
				f.ip++
			}
		case opMakeMap:
			mt := in.typ.Underlying().(*types.Map)
			id := st.newObj(&Object{kind: kMap, m: &MapV{kt: mt.Key(), index: map[string]int{}}})
			f.regs[in.dst] = ptrV(id, 0)
			f.ip++
		case opMapUpdate:
			if ex.mapUpdate(st, th, f, in) == cNext {
				f.ip++
			}
		case opLookup:
			if ex.lookup(st, th, f, in) == cNext {
				f.ip++
			}
		case opRange:
			x := f.get(in.a)
			if _, ok := in.typ.Underlying().(*types.Map); ok {
				it := &mapIter{m: x}
				if x.p != nil {
					m := st.heap.get(x.obj()).m
					for i := range m.keys {
						if m.live[i] {
							it.keys = append(it.keys, m.keys[i])
						}
					}
				}
				id := st.allocCells(1)
				f.regs[in.dst] = Value{p: &iterV{it: it, cell: id}}
			} else {
				id := st.allocCells(1)
				f.regs[in.dst] = Value{p: &iterV{str: x, isStr: true, cell: id}}
			}
			f.ip++
		case opNext:
			if ex.next(st, th, f, in) == cNext {
				f.ip++
			}
		case opTypeAssert:
			if ex.typeAssert(st, th, f, in) == cNext {
				f.ip++
			}
		case opMakeChan:
			n := ex.concInt(st, f.get(in.a), in.lay2, "channel size")
			id := st.newObj(&Object{kind: kChan, ch: &ChanV{cap: int(n)}})
			f.regs[in.dst] = ptrV(id, 0)
			f.ip++
		case opSend:
			if ex.schedPoint(st, th, "send", chanKey(f.get(in.a))) {
				return
			}
			ex.chanSend(st, th, f, f.get(in.a), f.get(in.b))
		case opRecv:
			if ex.schedPoint(st, th, "recv", chanKey(f.get(in.a))) {
				return
			}
			ex.chanRecv(st, th, f, in)
		case opSelect:
			if ex.schedPoint(st, th, "select", 0) {
				return
			}
			ex.doSelect(st, th, f, in)
		case opSliceToArr:
			s := f.get(in.a).slice()
			n := 0
			if s != nil {
				n = s.len
			}
			if n < in.n {
				ex.goPanicStr(st, th, "cannot convert slice to array pointer: length")
				continue
			}
			if s == nil {
				f.regs[in.dst] = Value{}
			} else {
				f.regs[in.dst] = ptrV(s.obj, s.off)
			}
			f.ip++
		case opNop:
			f.ip++
		default:
			ex.fail("unsupported instruction %v", in.raw)
		}
	}
}

func (ex *Exec) stepLimit(st *State, th *Thread) {
	ex.incomplete[fmt.Sprintf("step limit (%d instructions) reached: possible hang in %s", st.steps, ex.repoWhere(th))]++
	if ex.sol != nil && st.model != nil {
		ex.addViolation(st, "hang", "does not terminate within the step bound", st.model)
	}
	ex.kill(st, "steps")
}

// ---- calls ----

func (ex *Exec) callTarget(st *State, th *Thread, f *Frame, in *Instr) (Value, []Value) {
	if in.method != nil {
		iv := f.get(in.args[0])
		i := iv.iface()
		if i == nil {
			ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
			return Value{}, nil
		}
		fn := ex.p.method(i.t, in.method)
		args := make([]Value, len(in.args))
		args[0] = i.v
		for k := 1; k < len(in.args); k++ {
			args[k] = f.get(in.args[k])
		}
		return Value{p: &FuncV{fn: fn}}, args
	}
	args := make([]Value, len(in.args))
	for k := range in.args {
		args[k] = f.get(in.args[k])
	}
	if in.builtin != "" {
		return Value{p: &FuncV{native: "builtin " + in.builtin, data: in}}, args
	}
	if in.callee != nil {
		return Value{p: &FuncV{fn: in.callee}}, args
	}
	return f.get(in.a), args
}

func (ex *Exec) doCall(st *State, th *Thread, f *Frame, in *Instr) {
	var args []Value
	if len(in.args) <= len(ex.argScratch) {
		args = ex.argScratch[:len(in.args)]
	} else {
		args = make([]Value, len(in.args))
	}
	for k := range in.args {
		args[k] = f.get(in.args[k])
	}
	if in.builtin != "" {
		v, c := ex.builtin(st, th, f, in, args)
		if c == cNext {
			if in.dst >= 0 {
				f.regs[in.dst] = v
			}
			f.ip++
		}
		return
	}
	var fn *Func
	var binds []Value
	if in.method != nil {
		i := args[0].iface()
		if i == nil {
			ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
			return
		}
		fn = ex.p.method(i.t, in.method)
		args[0] = i.v
	} else if in.callee != nil {
		fn = in.callee
	} else {
		fv, ok := f.get(in.a).p.(*FuncV)
		if !ok {
			ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
			return
		}
		if fv.native != "" {
			v, c := ex.callNative(st, th, f, fv, args)
			if c == cNext {
				if in.dst >= 0 {
					f.regs[in.dst] = v
				}
				f.ip++
			}
			return
		}
		fn, binds = fv.fn, fv.binds
	}
	if fn.fast != nil {
		if v, ok := fn.fast(ex, st, args); ok {
			if in.dst >= 0 {
				f.regs[in.dst] = v
			}
			f.ip++
			return
		}
	}
	for fn.model != nil {
		fn = fn.model
	}
	if fn.intr != nil {
		v, c := fn.intr(ex, st, th, &callCtx{in: in, fn: fn, dst: in.dst}, args)
		switch c {
		case cNext:
			if in.dst >= 0 {
				f.regs[in.dst] = v
			}
			f.ip++
		}
		return
	}
	ex.pushCall(st, th, fn, args, binds, in.dst)
}

type callCtx struct {
	in  *Instr
	fn  *Func
	dst int32
}

// callDeferred runs a deferred call; the frame's ip stays where it is.
func (ex *Exec) callDeferred(st *State, th *Thread, f *Frame, d deferred) ctl {
	fv, ok := d.fn.p.(*FuncV)
	if !ok {
		ex.goPanicStr(st, th, "invalid memory address or nil pointer dereference")
		return cPanic
	}
	if fv.native != "" {
		if in, ok := fv.data.(*Instr); ok {
			_, c := ex.builtin(st, th, f, in, d.args)
			return c
		}
		_, c := ex.callNative(st, th, f, fv, d.args)
		return c
	}
	dfn := fv.fn
	for dfn.model != nil {
		dfn = dfn.model
	}
	if dfn.intr != nil {
		_, c := dfn.intr(ex, st, th, &callCtx{in: d.in, fn: dfn, dst: noReg}, d.args)
		if c == cCall {
			th.frames[len(th.frames)-1].isDefer = true
		}
		return c
	}
	nf := ex.pushCall(st, th, fv.fn, d.args, fv.binds, noReg)
	nf.isDefer = true
	return cCall
}

func (ex *Exec) spawn(st *State, th *Thread, fv Value, args []Value, in *Instr) {
	f, ok := fv.p.(*FuncV)
	if !ok || f.native != "" {
		ex.fail("go of native function")
	}
	nt := ex.newThread(st, fmt.Sprintf("%s.%d", th.name, th.nspawn))
	th.nspawn++
	if f.fn.intr != nil {
		ex.fail("go of intrinsic %s", f.fn.name)
	}
	ex.pushCall(st, nt, f.fn, args, f.binds, noReg)
	if ex.explore {
		ex.onSpawn(st, th, nt)
	}
}

// ---- panics ----

func (ex *Exec) goPanicStr(st *State, th *Thread, msg string) {
	t := ex.p.typ(vxPath, "RuntimeError")
	if t == nil {
		ex.fail("panic: %s", msg)
	}
	ex.goPanic(st, th, mkIface(t, strV("runtime error: "+msg)))
}

func (ex *Exec) goPanic(st *State, th *Thread, v Value) {
	w := ex.repoWhere(th)
	th.panics = append(th.panics, &PanicRec{val: v, where: w, stack: ex.threadStack(th)})
	th.frames[len(th.frames)-1].unwind = true
}

func (ex *Exec) unwindStep(st *State, th *Thread) {
	f := th.frames[len(th.frames)-1]
	pr := th.panics[len(th.panics)-1]
	if pr.recovered {
		th.panics = th.panics[:len(th.panics)-1]
		f.unwind = false
		if f.fn.recov >= 0 {
			f.blk = f.fn.recov
			f.ip = 0
			return
		}
		// zero results
		sig := f.fn.fn.Signature.Results()
		var v Value
		switch sig.Len() {
		case 0:
		case 1:
			if isAggregate(sig.At(0).Type()) {
				v = aggV(make([]Value, ex.p.layout(sig.At(0).Type()).slots))
			}
		default:
			vs := make([]Value, sig.Len())
			for i := range vs {
				if isAggregate(sig.At(i).Type()) {
					vs[i] = aggV(make([]Value, ex.p.layout(sig.At(i).Type()).slots))
				}
			}
			v = aggV(vs)
		}
		ex.ret(st, th, v)
		return
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		c := ex.callDeferred(st, th, f, d)
		if c == cBlock {
			f.defers = append(f.defers, d)
		}
		return
	}
	n := len(th.frames) - 1
	if n == 0 {
		if pr.goexit {
			th.done = true
			return
		}
		ex.uncaught(st, th, pr)
		return
	}
	th.frames = th.frames[:n]
	th.frames[n-1].unwind = true
}

func (ex *Exec) panicString(st *State, v Value) string {
	i := v.iface()
	if i == nil {
		return "nil"
	}
	if s, ok := concreteStr(i.v); ok && ex.p.layout(i.t).isStr {
		return s
	}
	return fmt.Sprintf("%s value", i.t)
}

func (ex *Exec) uncaught(st *State, th *Thread, pr *PanicRec) {
	if ex.initMode {
		ex.fail("panic during init: %s\n%s", ex.panicString(st, pr.val), pr.stack)
	}
	key := len(ex.viols)
	ex.addViolation(st, "panic", ex.panicString(st, pr.val)+" at "+pr.where, st.model)
	if len(ex.viols) > key {
		ex.viols[key].Where = pr.where
		ex.viols[key].Stack = pr.stack
	}
	ex.kill(st, "panic")
}

func (ex *Exec) doRecover(th *Thread) Value {
	n := len(th.frames) - 1
	if len(th.panics) == 0 || n < 1 || !th.frames[n].isDefer || !th.frames[n-1].unwind {
		return Value{}
	}
	pr := th.panics[len(th.panics)-1]
	if pr.recovered || pr.goexit {
		return Value{}
	}
	pr.recovered = true
	return pr.val
}

// ---- init ----

func (ex *Exec) runInit(st *State, fn *Func) (err error) {
	ex.initMode = true
	st.alive = true
	st.threads = nil
	st.cur = 0
	if st.model == nil {
		st.model = &Model{vals: map[*Term]uint64{}, memo: map[*Term]uint64{}}
		st.names = map[string]int{}
	}
	th := ex.newThread(st, "init")
	ex.pushCall(st, th, fn, nil, nil, noReg)
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(engineError); ok {
				err = fmt.Errorf("%s\n%s", e.msg, ex.stack(st))
				return
			}
			panic(r)
		}
		st.threads = nil
	}()
	for !th.done {
		ex.runThread(st)
		if !st.alive {
			return fmt.Errorf("init ended: %s", st.ending)
		}
		if th.wait != wNone {
			return fmt.Errorf("init blocked")
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
