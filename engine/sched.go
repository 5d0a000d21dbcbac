package main

import (
	"fmt"
	"hash/fnv"
)

func chanKey(v Value) uint64 {
	if v.p == nil {
		return 0
	}
	return v.n
}

// ---- scheduling ----

func (ex *Exec) runnable(st *State) []int {
	var r []int
	for i, t := range st.threads {
		if !t.done && t.wait == wNone {
			r = append(r, i)
		}
	}
	return r
}

func hmix(xs ...uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range xs {
		for i := 0; i < 8; i++ {
			h ^= x & 0xff
			h *= 1099511628211
			x >>= 8
		}
	}
	return h
}

func hstr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// decide forks over the threads that may run next; the current state takes the first.
// Returns false if the state was already explored.
func (ex *Exec) decide(st *State, r []int) bool {
	ex.schedPoints++
	if debugStack {
		w := ""
		for _, t := range st.threads {
			if !t.done {
				w += " | " + fmt.Sprint(t.wait) + ex.repoWhere(t)
			}
		}
		ex.stubs["AT "+w]++
	}
	type choice struct{ t, pick int }
	var cs []choice
	for _, t := range r {
		for k := 0; k < ex.partners(st, st.threads[t]); k++ {
			cs = append(cs, choice{t, k})
		}
	}
	if len(cs) > 1 {
		if ex.seenBefore(st, 0) {
			return false
		}
	} else if len(st.threads) > 1 {
		if ex.seenBefore(st, 0) {
			return false
		}
	}
	cur := st.cur
	for _, ch := range cs[1:] {
		t := ch.t
		if ex.maxPreempt >= 0 && st.threads[cur].wait == wNone && !st.threads[cur].done && t != cur && st.preempt >= ex.maxPreempt {
			ex.incomplete["preemption bound"]++
			continue
		}
		c := st.fork()
		c.cur = t
		c.threads[t].ready = true
		c.threads[t].pick = ch.pick
		if st.threads[cur].wait == wNone && !st.threads[cur].done && t != cur {
			c.preempt++
		}
		c.sched = append(c.sched, st.threads[t].name)
		ex.work = append(ex.work, c)
	}
	st.cur = r[0]
	st.threads[r[0]].ready = true
	st.threads[r[0]].pick = 0
	if len(r) > 1 {
		st.sched = append(st.sched, st.threads[r[0]].name)
	}
	return true
}

// schedPoint is called before a visible operation. true: the processor moves
// to another thread (or the state ended) and the operation is not executed yet.
func (ex *Exec) schedPoint(st *State, th *Thread, kind string, obj uint64) bool {
	if !st.explore || st.atomic > 0 {
		return false
	}
	if th.ready {
		th.ready, th.atPoint = false, false
		return false
	}
	if kind == "send" || kind == "recv" {
		if !ex.enabled(st, obj, kind == "send") {
			return false // it will wait; that is no choice
		}
	}
	// local steps commute: every goroutine goes on to its next visible
	// operation before one of these operations is chosen
	th.atPoint, th.ptKind, th.ptObj = true, kind, obj
	if ex.runLocal(st) {
		return true
	}
	r := ex.runnable(st)
	// current first
	for i, t := range r {
		if t == st.cur && i != 0 {
			copy(r[1:i+1], r[:i])
			r[0] = t
		}
	}
	if !ex.decide(st, r) {
		return true
	}
	th.ready, th.atPoint = false, false
	return false
}

// runLocal moves to a goroutine that is not yet at its next visible operation.
func (ex *Exec) runLocal(st *State) bool {
	for i, t := range st.threads {
		if t.done || t.wait != wNone {
			continue
		}
		if t.atPoint && (t.ptKind == "send" || t.ptKind == "recv") && !ex.enabled(st, t.ptObj, t.ptKind == "send") {
			t.atPoint = false // its partner is gone: it goes on to wait
		}
		if !t.atPoint {
			st.cur = i
			return true
		}
	}
	return false
}

// schedule picks the next thread when the current one cannot go on.
func (ex *Exec) schedule(st *State) {
	if st.threads[0].done {
		ex.kill(st, "done")
		return
	}
	r := ex.runnable(st)
	if len(r) == 0 {
		for i, t := range st.threads {
			if t.wait == wQuiesce {
				ex.wake(t)
				st.cur = i
				return
			}
		}
		ex.deadlock(st)
		return
	}
	if st.explore && st.atomic == 0 {
		if !ex.runLocal(st) {
			ex.decide(st, r)
		}
		return
	}
	// next in round-robin order
	best := r[0]
	for _, t := range r {
		if t > st.cur {
			best = t
			break
		}
	}
	st.cur = best
}

func (ex *Exec) deadlock(st *State) {
	msg := "all goroutines are blocked: "
	for _, t := range st.threads {
		if !t.done {
			msg += t.blockReason + "; "
		}
	}
	// main's position matters most
	st.cur = 0
	w := ""
	for _, t := range st.threads {
		if !t.done && w == "" {
			w = ex.repoWhere(t)
		}
	}
	n := len(ex.viols)
	ex.addViolation(st, "deadlock", msg, st.model)
	if len(ex.viols) > n {
		ex.viols[n].Where = w
	}
	ex.kill(st, "deadlock")
}

func (ex *Exec) block(st *State, th *Thread, k waitKind, obj uint64, why string) {
	th.wait = k
	th.waitObj = obj
	th.seq = st.seq
	st.seq++
	th.blockReason = why
}

func (ex *Exec) wake(th *Thread) {
	th.wait = wNone
	th.blockReason = ""
	th.selCases = nil
}

// wakeAll makes every thread waiting on (k,obj) retry its operation.
func (ex *Exec) wakeAll(st *State, k waitKind, obj uint64) {
	for _, t := range st.threads {
		if t.wait == k && t.waitObj == obj {
			ex.wake(t)
			t.atPoint = false
			t.ready = !st.explore // in explore mode the retry is a fresh decision
		}
	}
}

func (ex *Exec) onSpawn(st *State, th, nt *Thread) {
	nt.vc = append([]int32(nil), th.vc...)
	for len(nt.vc) <= nt.id {
		nt.vc = append(nt.vc, 0)
	}
	nt.vc[nt.id]++
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id]++
}

// taken sends the goroutines that are about to take the lock on to wait for it.
func (ex *Exec) taken(st *State, th *Thread, kind string, obj uint64) {
	for _, t := range st.threads {
		if t != th && !t.done && t.wait == wNone && t.atPoint && t.ptObj == obj && (t.ptKind == "lock" || t.ptKind == "rlock" && kind == "lock") {
			t.atPoint, t.ready = false, true
		}
	}
}

// ---- channels ----

type waiter struct {
	t   *Thread
	sel int
}

// waiters lists the goroutines waiting to send to (receive from) ch. When
// schedules are explored any of them may be the one that is served.
func (ex *Exec) waiters(st *State, ch uint64, send bool) (w []waiter) {
	for _, t := range st.threads {
		if t.done {
			continue
		}
		switch {
		case send && t.wait == wSend && t.waitObj == ch, !send && t.wait == wRecv && t.waitObj == ch:
			w = append(w, waiter{t, -1})
		case t.wait == wSelect:
			for i, c := range t.selCases {
				if uint64(c.ch)<<32 == ch && c.send == send {
					w = append(w, waiter{t, i})
				}
			}
		}
	}
	return
}

func (ex *Exec) enabled(st *State, key uint64, send bool) bool {
	if key == 0 {
		return false
	}
	ch := st.heap.get(uint32(key >> 32)).ch
	if ch.closed || len(ex.waiters(st, key, !send)) > 0 {
		return true
	}
	if send {
		return len(ch.buf) < ch.cap
	}
	return len(ch.buf) > 0
}

// partners counts the ways in which the operation t is about to do can go.
func (ex *Exec) partners(st *State, t *Thread) int {
	f := t.frames[len(t.frames)-1]
	if f.blk >= len(f.fn.blocks) || f.ip >= len(f.fn.blocks[f.blk].ins) {
		return 1
	}
	in := &f.fn.blocks[f.blk].ins[f.ip]
	n := 1
	if in.op == opSend || in.op == opRecv {
		c := f.get(in.a)
		if k := chanKey(c); k != 0 {
			if in.op == opRecv && len(st.heap.get(c.obj()).ch.buf) > 0 {
				// the buffer comes first; a waiting sender then fills it
			}
			if w := len(ex.waiters(st, k, in.op == opRecv)); w > 1 {
				n = w
			}
		}
	}
	return n
}

// queue returns the waiting thread that arrived first for the given role on ch.
func (ex *Exec) queue(st *State, ch uint64, send bool) (*Thread, int) {
	if st.explore && st.atomic == 0 {
		if w := ex.waiters(st, ch, send); len(w) > 0 {
			th := st.threads[st.cur]
			k := th.pick
			th.pick = 0
			if k >= len(w) {
				k = 0
			}
			return w[k].t, w[k].sel
		}
		return nil, 0
	}
	var best *Thread
	bi := -1
	for _, t := range st.threads {
		if t.done {
			continue
		}
		switch {
		case send && t.wait == wSend && t.waitObj == ch, !send && t.wait == wRecv && t.waitObj == ch:
			if best == nil || t.seq < best.seq {
				best, bi = t, -1
			}
		case t.wait == wSelect:
			for i, c := range t.selCases {
				if uint64(c.ch)<<32 == ch && c.send == send {
					if best == nil || t.seq < best.seq {
						best, bi = t, i
					}
					break
				}
			}
		}
	}
	return best, bi
}

// completeRecv hands v to a thread blocked in a receive (or select).
func (ex *Exec) completeRecv(st *State, t *Thread, sel int, v Value, ok bool) {
	f := t.frames[len(t.frames)-1]
	in := &f.fn.blocks[f.blk].ins[f.ip]
	if sel >= 0 {
		ex.finishSelect(t, f, in, sel, v, ok)
	} else {
		if in.flag {
			f.regs[in.dst] = aggV([]Value{v, boolV(ok)})
		} else {
			f.regs[in.dst] = v
		}
	}
	f.ip++
	ex.wake(t)
	t.ready = false
}

func (ex *Exec) completeSend(st *State, t *Thread, sel int) {
	f := t.frames[len(t.frames)-1]
	if sel >= 0 {
		in := &f.fn.blocks[f.blk].ins[f.ip]
		ex.finishSelect(t, f, in, sel, Value{}, false)
	}
	f.ip++
	ex.wake(t)
	t.ready = false
}

func (ex *Exec) finishSelect(t *Thread, f *Frame, in *Instr, idx int, v Value, ok bool) {
	n := 2
	for i := 0; i < len(in.args)/2; i++ {
		if in.args[2*i+1] == noReg {
			n++
		}
	}
	res := make([]Value, n)
	res[0] = intV(uint64(int64(idx)))
	res[1] = boolV(ok)
	k := 2
	for i := 0; i < len(in.args)/2; i++ {
		if in.args[2*i+1] == noReg {
			if i == idx {
				res[k] = v
			}
			k++
		}
	}
	f.regs[in.dst] = aggV(res)
}

func (ex *Exec) chanSend(st *State, th *Thread, f *Frame, c, v Value) {
	if c.p == nil {
		ex.block(st, th, wOther, 0, "send on nil channel")
		return
	}
	ch := st.heap.get(c.obj()).ch
	if ch.closed {
		ex.goPanic(st, th, ex.plainErr("send on closed channel"))
		return
	}
	if t, sel := ex.queue(st, c.n, false); t != nil {
		sv := t
		ex.raceJoin2(st, th, t)
		ex.completeRecv(st, sv, sel, v, true)
		f.ip++
		return
	}
	if len(ch.buf) < ch.cap {
		o := st.wobj(c.obj())
		o.ch.buf = append(o.ch.buf, v)
		ex.raceRelease(st, th, c.n)
		f.ip++
		return
	}
	th.sendVal = v
	ex.block(st, th, wSend, c.n, "chan send")
}

func (ex *Exec) plainErr(msg string) Value {
	t := ex.p.typ(vxPath, "RuntimeError")
	return mkIface(t, strV(msg))
}

func (ex *Exec) recvNow(st *State, th *Thread, c Value) (Value, bool, bool) {
	ch := st.heap.get(c.obj()).ch
	if len(ch.buf) > 0 {
		o := st.wobj(c.obj())
		v := o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		ex.raceAcquire(st, th, c.n)
		if t, sel := ex.queue(st, c.n, true); t != nil {
			sv := t.sendVal
			if sel >= 0 {
				sv = t.selCases[sel].val
			}
			o.ch.buf = append(o.ch.buf, sv)
			ex.raceReleaseAs(st, t, c.n)
			ex.completeSend(st, t, sel)
		}
		return v, true, true
	}
	if t, sel := ex.queue(st, c.n, true); t != nil {
		v := t.sendVal
		if sel >= 0 {
			v = t.selCases[sel].val
		}
		ex.raceJoin2(st, th, t)
		ex.completeSend(st, t, sel)
		return v, true, true
	}
	if ch.closed {
		ex.raceAcquire(st, th, c.n)
		return Value{}, false, true
	}
	return Value{}, false, false
}

func (ex *Exec) chanRecv(st *State, th *Thread, f *Frame, in *Instr) {
	c := f.get(in.a)
	if c.p == nil {
		ex.block(st, th, wOther, 0, "receive from nil channel")
		return
	}
	v, ok, done := ex.recvNow(st, th, c)
	if !done {
		ex.block(st, th, wRecv, c.n, "chan receive")
		return
	}
	if !ok {
		v = ex.zero(in.typ)
	}
	if in.flag {
		f.regs[in.dst] = aggV([]Value{v, boolV(ok)})
	} else {
		f.regs[in.dst] = v
	}
	f.ip++
}

func (ex *Exec) chanClose(st *State, th *Thread, c Value) (Value, ctl) {
	if ex.schedPoint(st, th, "close", chanKey(c)) {
		return Value{}, cStay
	}
	if c.p == nil {
		ex.goPanic(st, th, ex.plainErr("close of nil channel"))
		return Value{}, cPanic
	}
	o := st.wobj(c.obj())
	if o.ch.closed {
		ex.goPanic(st, th, ex.plainErr("close of closed channel"))
		return Value{}, cPanic
	}
	o.ch.closed = true
	ex.raceRelease(st, th, c.n)
	for {
		t, sel := ex.queue(st, c.n, false)
		if t == nil {
			break
		}
		ex.raceAcquire(st, t, c.n)
		ff := t.frames[len(t.frames)-1]
		in := &ff.fn.blocks[ff.blk].ins[ff.ip]
		z := Value{}
		if sel < 0 {
			z = ex.zero(in.typ)
		}
		ex.completeRecv(st, t, sel, z, false)
	}
	for {
		t, _ := ex.queue(st, c.n, true)
		if t == nil {
			break
		}
		ex.wake(t) // retries and panics
	}
	return Value{}, cNext
}

func (ex *Exec) doSelect(st *State, th *Thread, f *Frame, in *Instr) {
	n := len(in.args) / 2
	var cases []selCase
	for i := 0; i < n; i++ {
		c := f.get(in.args[2*i])
		send := in.args[2*i+1] != noReg
		sc := selCase{send: send}
		if c.p != nil {
			sc.ch = c.obj()
		}
		if send {
			sc.val = f.get(in.args[2*i+1])
		}
		cases = append(cases, sc)
	}
	for i, sc := range cases {
		if sc.ch == 0 {
			continue
		}
		c := ptrV(sc.ch, 0)
		ch := st.heap.get(sc.ch).ch
		if sc.send {
			if ch.closed {
				ex.goPanic(st, th, ex.plainErr("send on closed channel"))
				return
			}
			t, sel := ex.queue(st, c.n, false)
			if t == nil && len(ch.buf) >= ch.cap {
				continue
			}
			if t != nil {
				ex.raceJoin2(st, th, t)
				ex.completeRecv(st, t, sel, sc.val, true)
			} else {
				o := st.wobj(sc.ch)
				o.ch.buf = append(o.ch.buf, sc.val)
				ex.raceRelease(st, th, c.n)
			}
			ex.finishSelect(th, f, in, i, Value{}, false)
			f.ip++
			return
		}
		v, ok, done := ex.recvNow(st, th, c)
		if !done {
			continue
		}
		if !ok && v.p == nil {
			// zero of the element type
			f2 := in.typ
			_ = f2
		}
		ex.finishSelect(th, f, in, i, v, ok)
		f.ip++
		return
	}
	if !in.flag {
		if st.explore && st.atomic == 0 {
			ex.incomplete["a select with a default: only schedules in which the others already wait"]++
		}
		ex.finishSelect(th, f, in, -1, Value{}, false)
		f.ip++
		return
	}
	th.selCases = cases
	ex.block(st, th, wSelect, 0, "select")
	th.selCases = cases
}

// ---- happens-before and data races (explore mode only) ----

type raceCell struct {
	wt   int32
	wc   int32
	r    []int32 // read clocks per thread
	wpos string
}

type raceObj struct {
	owner *raceState
	cells map[int]*raceCell
}

type raceState struct {
	objs map[uint32]*raceObj
	sync map[uint64][]int32
	off  bool
}

func newRaceState() *raceState {
	return &raceState{objs: map[uint32]*raceObj{}, sync: map[uint64][]int32{}}
}

func (r *raceState) clone() *raceState {
	c := &raceState{objs: make(map[uint32]*raceObj, len(r.objs)), sync: make(map[uint64][]int32, len(r.sync)), off: r.off}
	for k, v := range r.objs {
		c.objs[k] = v
	}
	for k, v := range r.sync {
		c.sync[k] = v
	}
	// both copies must copy before writing
	for _, v := range r.objs {
		v.owner = nil
	}
	return c
}

func (r *raceState) obj(id uint32) *raceObj {
	o := r.objs[id]
	if o == nil {
		o = &raceObj{owner: r, cells: map[int]*raceCell{}}
		r.objs[id] = o
		return o
	}
	if o.owner != r {
		n := &raceObj{owner: r, cells: make(map[int]*raceCell, len(o.cells))}
		for k, v := range o.cells {
			n.cells[k] = v
		}
		r.objs[id] = n
		return n
	}
	return o
}

func vcGet(v []int32, i int32) int32 {
	if int(i) < len(v) {
		return v[i]
	}
	return 0
}

// raceTouch is raceAccess for memory a model reads or writes for its caller.
func (ex *Exec) raceTouch(st *State, th *Thread, id uint32, slot, n int, write bool) {
	ex.raceForce = true
	ex.raceAccess(st, th, id, slot, n, write)
	ex.raceForce = false
}

func (ex *Exec) raceAccess(st *State, th *Thread, id uint32, slot, n int, write bool) {
	r := st.race
	if r.off || len(st.threads) == 1 || st.atomic > 0 || n > 4096 {
		return
	}
	if id == 0 {
		return
	}
	top := th.frames[len(th.frames)-1]
	if !top.fn.inRepo && !ex.raceForce && !(ex.raceStd && top.fn.std) {
		return
	}
	me := int32(th.id)
	// when nobody else can run, whoever runs later was started or woken by
	// this goroutine after the access
	alone := true
	for _, t := range st.threads {
		if t != th && !t.done && (t.wait == wNone || t.wait == wQuiesce) {
			alone = false
		}
	}
	if alone && r.objs[id] == nil {
		return
	}
	o := r.obj(id)
	for i := slot; i < slot+n; i++ {
		c := o.cells[i]
		var nc raceCell
		if c != nil {
			nc = *c
			if c.wc != 0 && c.wt != me && vcGet(th.vc, c.wt) < c.wc {
				ex.reportRace(st, th, c.wpos)
			}
			if write {
				for t, k := range c.r {
					if int32(t) != me && k != 0 && vcGet(th.vc, int32(t)) < k {
						ex.reportRace(st, th, "a concurrent read")
					}
				}
			}
		}
		if alone {
			continue
		}
		now := vcGet(th.vc, me)
		if write {
			nc.wt, nc.wc = me, now
			nc.r = nil
			in := &top.fn.blocks[top.blk].ins[top.ip]
			nc.wpos = ex.p.pos(in.raw)
		} else {
			if vcGet(nc.r, me) == now {
				continue
			}
			nr := append([]int32(nil), nc.r...)
			for len(nr) <= int(me) {
				nr = append(nr, 0)
			}
			nr[me] = now
			nc.r = nr
		}
		o.cells[i] = &nc
	}
}

func (ex *Exec) reportRace(st *State, th *Thread, other string) {
	msg := fmt.Sprintf("data race between %s and %s", ex.repoWhere(th), other)
	for _, r := range st.races {
		if r == msg {
			return
		}
	}
	st.races = append(st.races, msg)
	ex.addViolation(st, "race", msg, st.model)
}

func vcJoin(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func tick(th *Thread) {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id]++
}

func (ex *Exec) raceJoin2(st *State, a, b *Thread) {
	if st.race == nil {
		return
	}
	j := vcJoin(append([]int32(nil), a.vc...), b.vc)
	a.vc = append([]int32(nil), j...)
	b.vc = append([]int32(nil), j...)
	tick(a)
	tick(b)
}

func (ex *Exec) raceRelease(st *State, th *Thread, k uint64) {
	if st.race == nil {
		return
	}
	st.race.sync[k] = vcJoin(append([]int32(nil), st.race.sync[k]...), th.vc)
	tick(th)
}

func (ex *Exec) raceReleaseAs(st *State, th *Thread, k uint64) { ex.raceRelease(st, th, k) }

func (ex *Exec) raceAcquire(st *State, th *Thread, k uint64) {
	if st.race == nil {
		return
	}
	th.vc = vcJoin(th.vc, st.race.sync[k])
}
