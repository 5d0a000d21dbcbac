package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Exploration of schedules keeps one state of every set of states that behave
// alike: the hash covers the live registers of every goroutine, the objects
// that differ from the base state (numbered in the order they are met, so
// that allocation order does not matter), the path condition and what the
// race detector remembers. Goroutines are ordered by their own content, so
// states that differ only in the names of goroutines are alike too.

type hasher struct {
	ex    *Exec
	st    *State
	snap  *snapshot
	num   map[uint32]uint32
	queue []uint32
	refs  bool
	h     uint64
	log   *strings.Builder
	small bool // leave out big objects
}

func (z *hasher) say(f string, a ...any) {
	if z.log != nil {
		fmt.Fprintf(z.log, f, a...)
	}
}

func (z *hasher) mix(x uint64) {
	hi, lo := bits.Mul64(z.h^x^0x9e3779b97f4a7c15, 0xd6e8feb86659fd93)
	z.h = hi ^ lo ^ bits.RotateLeft64(z.h, 23)
}

func (z *hasher) canon(id uint32) uint64 {
	if z.snap.isPinned(id) {
		return uint64(id)
	}
	z.refs = true
	n, ok := z.num[id]
	if !ok {
		n = z.snap.n + uint32(len(z.num))
		z.num[id] = n
		z.queue = append(z.queue, id)
	}
	return uint64(n)
}

func typeID(t types.Type) uint64 {
	return uint64((*[2]uintptr)(unsafe.Pointer(&t))[1])
}

func (z *hasher) key(k uint64) { // an object address packed into a word
	z.mix(z.canon(uint32(k >> 32)))
	z.mix(k & 0xffffffff)
}

func (z *hasher) val(v Value) {
	switch p := v.p.(type) {
	case nil:
		z.mix(v.n)
	case *ptrTag:
		z.mix(2)
		z.key(v.n)
	case *Term:
		z.mix(3 + uint64(p.id)<<8)
	case string:
		z.mix(4)
		z.mix(hstr(p))
	case *SliceV:
		z.mix(5)
		z.mix(z.canon(p.obj))
		z.mix(uint64(p.off))
		z.mix(uint64(p.len))
		z.mix(uint64(p.cap))
	case *SymPtr:
		z.mix(6)
		z.mix(z.canon(p.obj))
		z.mix(uint64(p.base))
		z.mix(uint64(p.stride))
		z.mix(uint64(p.count))
		z.mix(uint64(p.sub))
		z.mix(uint64(p.idx.id))
	case *SymStr:
		z.mix(7)
		z.vals(p.b)
	case *IfaceV:
		z.mix(8)
		z.mix(typeID(p.t))
		z.val(p.v)
	case *AggV:
		z.mix(9)
		z.vals(p.v)
	case *FuncV:
		z.mix(10)
		z.mix(uint64(uintptr(unsafe.Pointer(p.fn))))
		z.vals(p.binds)
		if p.native != "" || p.data != nil {
			z.mix(hstr(p.native))
			z.mix(uint64(uintptr(unsafe.Pointer(p))))
		}
	case *iterV:
		z.mix(11)
		z.mix(z.canon(p.cell))
		z.val(p.str)
		if p.it != nil {
			z.val(p.it.m)
			z.vals(p.it.keys)
		}
	case *NativeV:
		z.mix(12)
		z.mix(uint64((*[2]uintptr)(unsafe.Pointer(&p.data))[1]))
	default:
		z.mix(13)
		z.mix(uint64((*[2]uintptr)(unsafe.Pointer(&v.p))[1]))
	}
}

func (z *hasher) vals(vs []Value) {
	z.mix(uint64(len(vs)))
	for _, v := range vs {
		z.val(v)
	}
}

// objSum summarises an object of many pages: the pages that refer to new
// objects are not covered by the hash.
type objSum struct {
	pure   uint64
	impure []int
}

// object hashes what differs from b (nil: the zero object).
func (z *hasher) object(o, b *Object) {
	z.mix(uint64(o.kind))
	z.mix(uint64(o.n))
	switch o.kind {
	case kCells:
		for _, v := range o.small {
			z.val(v)
		}
		if o.cells == nil {
			break
		}
		if o.sum == nil {
			sum := &objSum{}
			pz := &hasher{ex: z.ex, st: z.st, snap: z.snap, num: map[uint32]uint32{}}
			acc := &hasher{}
			for i, pg := range o.cells {
				if pg == nil || b != nil && b.cells[i] == pg {
					continue
				}
				if pg.hs == 0 {
					pz.h, pz.refs = 0, false
					for _, v := range pg.v[:] {
						pz.val(v)
					}
					pg.hs, pg.hash = 1, pz.h
					if pz.refs {
						pg.hs = 2
					}
				}
				if pg.hs == 2 {
					sum.impure = append(sum.impure, i)
					continue
				}
				acc.mix(uint64(i))
				acc.mix(pg.hash)
			}
			sum.pure = acc.h
			if o.owner != z.st.tok {
				o.sum = sum
			}
			z.mix(sum.pure)
			for _, i := range sum.impure {
				z.mix(uint64(i))
				z.vals(o.cells[i].v[:])
			}
			break
		}
		z.mix(o.sum.pure)
		for _, i := range o.sum.impure {
			z.mix(uint64(i))
			z.vals(o.cells[i].v[:])
		}
	case kBytes:
		for i, pg := range o.bp {
			if pg == nil || b != nil && b.bp[i] == pg {
				continue
			}
			z.mix(uint64(i))
			if pg.owner == z.st.tok {
				pg.hs = 0
			}
			if pg.hs == 0 {
				h := z.h
				z.h = 0
				for k := 0; k < len(pg.b); k += 8 {
					w := uint64(0)
					for j := k; j < k+8 && j < len(pg.b); j++ {
						x := pg.b[j]
						if pg.sym != nil && pg.sym[j] != nil {
							x = 0
						}
						w = w<<8 | uint64(x)
					}
					z.mix(w)
				}
				s := uint64(0)
				for k, t := range pg.sym {
					s += hmix(uint64(k), uint64(t.id))
				}
				z.mix(s)
				pg.hash, z.h = z.h, h
				if pg.owner != z.st.tok {
					pg.hs = 1
				}
			}
			z.mix(pg.hash)
		}
	case kMap:
		z.mix(uint64(o.m.n))
		for i, k := range o.m.keys {
			if o.m.live[i] {
				z.val(k)
				z.val(o.m.vals[i])
			}
		}
	case kChan:
		z.mix(uint64(o.ch.cap))
		z.mix(b2u(o.ch.closed))
		z.vals(o.ch.buf)
	}
}

func (z *hasher) thread(t *Thread, rank int) {
	z.mix(uint64(t.wait))
	z.mix(b2u(t.ready) | b2u(t.atPoint)<<1)
	if t.wait != wNone {
		z.key(t.waitObj)
		z.mix(uint64(rank))
		if t.wait == wSend {
			z.val(t.sendVal)
		}
		for _, c := range t.selCases {
			z.mix(z.canon(c.ch))
			z.mix(b2u(c.send))
			z.val(c.val)
		}
	}
	z.mix(uint64(len(t.frames)))
	for i, f := range t.frames {
		z.mix(uint64(uintptr(unsafe.Pointer(f.fn))))
		z.mix(uint64(f.blk)<<32 | uint64(uint32(f.ip)))
		z.mix(uint64(uint32(f.dst)))
		z.mix(b2u(f.unwind) | b2u(f.isDefer)<<1 | b2u(f.noAdv)<<2)
		if f.onRet != nil {
			z.mix(uint64(uintptr(unsafe.Pointer(f))))
		}
		z.mix(uint64(len(f.defers)))
		for _, d := range f.defers {
			z.val(d.fn)
			z.vals(d.args)
		}
		z.say("\nframe %s %d %d:", f.fn.name, f.blk, f.ip)
		lv := f.fn.liveAt(f.blk, f.ip, i < len(t.frames)-1)
		for r, v := range f.regs {
			if lv == nil || lv[r>>6]&(1<<(r&63)) != 0 {
				z.mix(uint64(r))
				z.say(" r%d", r)
				z.val(v)
			}
		}
	}
	for _, p := range t.panics {
		z.mix(b2u(p.recovered) | b2u(p.goexit)<<1)
		z.val(p.val)
	}
}

func (z *hasher) drain() {
	for i := 0; i < len(z.queue); i++ {
		if o := z.st.heap.get(z.queue[i]); z.small && o.n > 4096 {
			z.mix(uint64(o.n))
			continue
		}
		z.say("\nobj %d(%d) %x:", z.queue[i], z.num[z.queue[i]], z.h&0xffff)
		z.object(z.st.heap.get(z.queue[i]), nil)
	}
	z.queue = z.queue[:0]
}

func (ex *Exec) stateHash(st *State) uint64 {
	st.tok = &tokenT{} // what was written so far cannot change any more
	if st.snap == nil {
		st.snap = ex.snapshot(st)
	}
	sn := st.snap
	mk := func() *hasher {
		return &hasher{ex: ex, st: st, snap: sn, num: map[uint32]uint32{}}
	}
	type item struct {
		t    *Thread
		rank int
		h    uint64
	}
	var ths []item
	for i, t := range st.threads {
		if t.done {
			continue
		}
		rank := 0
		for _, u := range st.threads {
			if !u.done && u.wait == t.wait && u.seq < t.seq && (t.wait == wSelect || u.waitObj == t.waitObj) {
				rank++
			}
		}
		z := mk()
		if i > 0 {
			z.small = true
			z.thread(t, rank)
			z.drain()
		}
		ths = append(ths, item{t, rank, z.h})
	}
	if len(ths) > 1 {
		r := ths[1:]
		sort.SliceStable(r, func(i, j int) bool { return r[i].h < r[j].h })
	}
	z := mk()
	if debugHash != "" && strings.Contains(ex.repoWhere(st.threads[0]), debugHash) {
		z.log = &strings.Builder{}
		defer func() {
			dumpN++
			os.WriteFile(fmt.Sprintf("/tmp/hash/%d", dumpN), []byte(z.log.String()), 0644)
		}()
	}
	for _, it := range ths {
		z.mix(it.h)
		z.thread(it.t, it.rank)
	}
	z.mix(99)
	z.mix(sn.id)
	for pi, pg := range sn.pages {
		cp := st.heap.pages[pi]
		if cp == pg {
			continue
		}
		for k, bo := range pg.o {
			if bo != nil && cp.o[k] != bo && sn.isPinned(uint32(pi<<heapPageBits|k)) {
				z.mix(uint64(pi<<heapPageBits | k))
				z.say("\nbase obj %d %x:", pi<<heapPageBits|k, z.h&0xffff)
				z.object(cp.o[k], bo)
			}
		}
	}
	z.drain()
	s := uint64(0)
	for _, c := range st.pc {
		s += hmix(uint64(c.id))
	}
	z.say("\npc %x", z.h&0xffff)
	z.mix(s)
	z.say("\ninputs %x", z.h&0xffff)
	z.mix(uint64(len(st.inputs)))
	z.mix(uint64(st.nowTick))
	if ex.maxPreempt >= 0 {
		z.mix(uint64(st.preempt))
		z.mix(uint64(st.cur))
	}
	if st.race != nil && !st.race.off {
		order := make([]*Thread, 0, len(st.threads))
		for _, it := range ths {
			order = append(order, it.t)
		}
		live := len(order)
		for _, t := range st.threads {
			if t.done {
				order = append(order, t)
			}
		}
		sort.Slice(order[live:], func(i, j int) bool { return order[live+i].name < order[live+j].name })
		z.say("\nrace %x", z.h&0xffff)
		z.mix(st.race.hash(z, order, live))
		z.say("\nend %x", z.h&0xffff)
	}
	return z.h
}

// snapshot is the heap at the start of the exploration. Objects reachable
// from big ones are pinned: they keep their identity, and only what changed
// in them since counts.
type snapshot struct {
	pages  []*heapPage
	n      uint32
	pinned []uint64
	id     uint64
}

func (s *snapshot) isPinned(id uint32) bool {
	return id < s.n && s.pinned[id>>6]&(1<<(id&63)) != 0
}

func (ex *Exec) snapshot(st *State) *snapshot {
	ex.nsnap++
	s := &snapshot{pages: append([]*heapPage(nil), st.heap.pages...), n: st.heap.n, id: uint64(ex.nsnap)}
	s.pinned = make([]uint64, s.n>>6+1)
	var todo []uint32
	pin := func(id uint32) {
		if id != 0 && !s.isPinned(id) {
			s.pinned[id>>6] |= 1 << (id & 63)
			todo = append(todo, id)
		}
	}
	for id := uint32(1); id < s.n; id++ {
		o := st.heap.get(id)
		if o != nil && (id < ex.p.base.heap.n || o.n > 4*pageSize) {
			pin(id)
		}
	}
	n := 0
	for n < len(todo) {
		id := todo[n]
		n++
		if id < ex.p.base.heap.n {
			continue
		}
		refs(st.heap.get(id), pin)
	}
	s.pinned[0] |= 1
	return s
}

// refs calls f for the objects o refers to.
func refs(o *Object, f func(uint32)) {
	var val func(v Value)
	vals := func(vs []Value) {
		for _, v := range vs {
			val(v)
		}
	}
	val = func(v Value) {
		switch p := v.p.(type) {
		case *ptrTag:
			f(v.obj())
		case *SliceV:
			f(p.obj)
		case *SymPtr:
			f(p.obj)
		case *IfaceV:
			val(p.v)
		case *AggV:
			vals(p.v)
		case *FuncV:
			vals(p.binds)
		}
	}
	switch o.kind {
	case kCells:
		vals(o.small)
		for _, pg := range o.cells {
			if pg != nil {
				vals(pg.v[:])
			}
		}
	case kMap:
		vals(o.m.keys)
		vals(o.m.vals)
	case kChan:
		vals(o.ch.buf)
	}
}

// hash covers the accesses that some live goroutine does not yet see, and who
// sees which of them.
func (r *raceState) hash(z *hasher, order []*Thread, live int) uint64 {
	pos := map[int32]int{}
	for i, t := range order {
		pos[int32(t.id)] = i
	}
	seen := func(t, c int32) bool {
		for _, u := range order[:live] {
			if int32(u.id) != t && vcGet(u.vc, t) < c {
				return false
			}
		}
		return true
	}
	used := map[int32][]int32{}
	note := func(t, c int32) {
		for _, x := range used[t] {
			if x == c {
				return
			}
		}
		used[t] = append(used[t], c)
	}
	type acc struct {
		t, c int32
		w    bool
		obj  uint64
		slot int
	}
	var accs []acc
	for id, o := range r.objs {
		cid := uint64(id)
		if !z.snap.isPinned(id) {
			n, ok := z.num[id]
			if !ok {
				continue
			}
			cid = uint64(n)
		}
		for sl, c := range o.cells {
			dead := true
			if c.wc != 0 && !seen(c.wt, c.wc) {
				accs = append(accs, acc{c.wt, c.wc, true, cid, sl})
				note(c.wt, c.wc)
				dead = false
			}
			for t, k := range c.r {
				if k != 0 && !seen(int32(t), k) {
					accs = append(accs, acc{int32(t), k, false, cid, sl})
					note(int32(t), k)
					dead = false
				}
			}
			if dead && o.owner == r {
				delete(o.cells, sl)
			}
		}
	}
	if len(accs) == 0 {
		return 0
	}
	rank := func(t, c int32) uint64 {
		n := uint64(0)
		for _, x := range used[t] {
			if x <= c {
				n++
			}
		}
		return n
	}
	sum := uint64(0)
	for _, a := range accs {
		sum += hmix(a.obj, uint64(a.slot), uint64(pos[a.t]), rank(a.t, a.c), b2u(a.w))
	}
	vc := func(tag uint64, v []int32) {
		for t := range used {
			sum += hmix(tag, uint64(pos[t]), rank(t, vcGet(v, t)))
		}
	}
	for i, u := range order[:live] {
		vc(uint64(i)+1, u.vc)
	}
	for k, v := range r.sync {
		id := uint32(k >> 32)
		if !z.snap.isPinned(id) {
			n, ok := z.num[id]
			if !ok {
				continue
			}
			id = n
		}
		vc(uint64(id)<<32|k&0xffffffff, v)
	}
	return sum
}

var debugHash = os.Getenv("GOSYM_HASH")
var dumpN int

// seenBefore prunes a state that was explored already.
func (ex *Exec) seenBefore(st *State, salt uint64) bool {
	fp := ex.stateHash(st) + salt
	if ex.visited[fp] {
		ex.pruned++
		ex.kill(st, "pruned")
		return true
	}
	ex.visited[fp] = true
	return false
}

// ---- liveness of registers ----

type liveInfo struct {
	before [][][]uint64 // [block][ip]
	caller [][][]uint64 // live once the call at ip returns, without its result
}

func (f *Func) liveAt(blk, ip int, calling bool) []uint64 {
	f.liveOnce.Do(f.computeLive)
	l := f.live.before
	if calling {
		l = f.live.caller
	}
	if blk >= len(l) || ip >= len(l[blk]) {
		return nil
	}
	return l[blk][ip]
}

func (f *Func) computeLive() {
	sf := f.fn
	regs := map[ssa.Value]int{}
	for _, x := range sf.Params {
		regs[x] = len(regs)
	}
	for _, x := range sf.FreeVars {
		regs[x] = len(regs)
	}
	for _, b := range sf.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = len(regs)
			}
		}
	}
	nw := (len(regs) + 63) >> 6
	n := len(f.blocks)
	in := make([][]uint64, n)
	for i := range in {
		in[i] = make([]uint64, nw)
	}
	set := func(s []uint64, v ssa.Value) {
		if r, ok := regs[v]; ok {
			s[r>>6] |= 1 << (r & 63)
		}
	}
	clear := func(s []uint64, v ssa.Value) {
		if r, ok := regs[v]; ok {
			s[r>>6] &^= 1 << (r & 63)
		}
	}
	out := func(bi int) []uint64 {
		s := make([]uint64, nw)
		b := sf.Blocks[bi]
		for _, sc := range b.Succs {
			for k, w := range in[sc.Index] {
				s[k] |= w
			}
			for _, i := range sc.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					continue
				}
				for k, p := range sc.Preds {
					if p == b {
						set(s, ph.Edges[k])
					}
				}
			}
		}
		if f.recov >= 0 {
			for k, w := range in[f.recov] {
				s[k] |= w
			}
		}
		return s
	}
	var rands []*ssa.Value
	step := func(s []uint64, i ssa.Instruction) {
		if v, ok := i.(ssa.Value); ok {
			clear(s, v)
		}
		rands = i.Operands(rands[:0])
		for _, r := range rands {
			if *r != nil {
				set(s, *r)
			}
		}
	}
	// phis of a block are defined before its first instruction
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			s := out(bi)
			is := sf.Blocks[bi].Instrs
			for k := len(is) - 1; k >= 0; k-- {
				if ph, ok := is[k].(*ssa.Phi); ok {
					clear(s, ph)
					continue
				}
				step(s, is[k])
			}
			for k, w := range s {
				if in[bi][k]|w != in[bi][k] {
					in[bi][k] |= w
					changed = true
				}
			}
		}
	}
	l := &liveInfo{before: make([][][]uint64, n), caller: make([][][]uint64, n)}
	for bi := range f.blocks {
		ins := f.blocks[bi].ins
		l.before[bi] = make([][]uint64, len(ins))
		l.caller[bi] = make([][]uint64, len(ins))
		s := out(bi)
		for k := len(ins) - 1; k >= 0; k-- {
			a := append([]uint64(nil), s...)
			if v, ok := ins[k].raw.(ssa.Value); ok {
				clear(a, v)
			}
			if f.recov >= 0 { // a panic may lead to the recover block
				for j, w := range in[f.recov] {
					a[j] |= w
				}
			}
			l.caller[bi][k] = a
			step(s, ins[k].raw)
			b := append([]uint64(nil), s...)
			if f.recov >= 0 {
				for j, w := range in[f.recov] {
					b[j] |= w
				}
			}
			l.before[bi][k] = b
		}
	}
	f.live = l
}
