package vx

import (
	"sync"
	"unsafe"
)

// Engine primitives (no-ops natively).
func point(kind string, obj uint64) {}
func event(kind string, obj uint64) {}
func waitOn(obj uint64, why string) {}
func wake(obj uint64)               {}
func acquire(obj uint64)            {}
func release(obj uint64)            {}
func exitPath()                     {}
func touched(b []byte, write bool)  {}
func Unsupported(msg string)        {}
func Atomic(n int)                  {}
func RaceOff()                      {}
func key(p unsafe.Pointer) uint64   { return uint64(uintptr(p)) }

// Models of package sync. The engine lays every scalar out in one slot, so
// the casts address the slots of the real structures.

func MuLock(m *sync.Mutex) {
	p := (*[2]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	for {
		for p[0] != 0 {
			waitOn(k, "mutex")
		}
		point("lock", k)
		if p[0] == 0 {
			break
		}
	}
	p[0] = 1
	event("lock", k)
	acquire(k)
}

func MuTryLock(m *sync.Mutex) bool {
	p := (*[2]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	point("lock", k)
	event("lock", k)
	if p[0] != 0 {
		return false
	}
	p[0] = 1
	acquire(k)
	return true
}

func MuUnlock(m *sync.Mutex) {
	p := (*[2]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	if p[0] == 0 {
		panic(RuntimeError("sync: unlock of unlocked mutex"))
	}
	p[0] = 0
	event("unlock", k)
	release(k)
	wake(k)
}

// RWMutex: slot 0 writer held, slot 1 number of readers.
func RWLock(m *sync.RWMutex) {
	p := (*[6]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	for {
		for p[0] != 0 || p[1] != 0 {
			waitOn(k, "rwmutex")
		}
		point("lock", k)
		if p[0] == 0 && p[1] == 0 {
			break
		}
	}
	p[0] = 1
	event("lock", k)
	acquire(k)
}

func RWUnlock(m *sync.RWMutex) {
	p := (*[6]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	if p[0] == 0 {
		panic(RuntimeError("sync: Unlock of unlocked RWMutex"))
	}
	p[0] = 0
	event("unlock", k)
	release(k)
	wake(k)
}

func RWRLock(m *sync.RWMutex) {
	p := (*[6]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	for {
		for p[0] != 0 {
			waitOn(k, "rwmutex")
		}
		point("rlock", k)
		if p[0] == 0 {
			break
		}
	}
	p[1]++
	event("rlock", k)
	acquire(k)
}

func RWRUnlock(m *sync.RWMutex) {
	p := (*[6]int32)(unsafe.Pointer(m))
	k := key(unsafe.Pointer(m))
	if p[1] == 0 {
		panic(RuntimeError("sync: RUnlock of unlocked RWMutex"))
	}
	p[1]--
	event("runlock", k)
	release(k)
	wake(k)
}

func WGAdd(w *sync.WaitGroup, n int) {
	p := (*[2]int64)(unsafe.Pointer(w))
	k := key(unsafe.Pointer(w))
	p[0] += int64(n)
	event("wg", k)
	release(k)
	if p[0] < 0 {
		panic(RuntimeError("sync: negative WaitGroup counter"))
	}
	if p[0] == 0 {
		wake(k)
	}
}

func WGDone(w *sync.WaitGroup) { WGAdd(w, -1) }

func WGWait(w *sync.WaitGroup) {
	p := (*[2]int64)(unsafe.Pointer(w))
	k := key(unsafe.Pointer(w))
	for {
		for p[0] != 0 {
			waitOn(k, "waitgroup")
		}
		point("wgwait", k)
		if p[0] == 0 {
			break
		}
	}
	event("wgwait", k)
	acquire(k)
}

func WGGo(w *sync.WaitGroup, f func()) {
	WGAdd(w, 1)
	go func() {
		defer WGAdd(w, -1)
		f()
	}()
}

type condT struct {
	L            sync.Locker
	wait, notify uint32
	lock         uintptr
	head, tail   *condNode
}

type condNode struct {
	next *condNode
	done bool
}

func CondWait(c *sync.Cond) {
	p := (*condT)(unsafe.Pointer(c))
	k := key(unsafe.Pointer(&p.wait))
	point("condwait", k)
	n := &condNode{}
	if p.head == nil {
		p.head = n
	} else {
		p.tail.next = n
	}
	p.tail = n
	p.L.Unlock()
	kn := key(unsafe.Pointer(n))
	for !n.done {
		waitOn(kn, "cond")
	}
	acquire(k)
	p.L.Lock()
}

func condPop(p *condT) {
	n := p.head
	p.head = n.next
	if p.head == nil {
		p.tail = nil
	}
	n.done = true
	wake(key(unsafe.Pointer(n)))
}

func CondSignal(c *sync.Cond) {
	p := (*condT)(unsafe.Pointer(c))
	k := key(unsafe.Pointer(&p.wait))
	point("signal", k)
	release(k)
	if p.head != nil {
		condPop(p)
	}
}

func CondBroadcast(c *sync.Cond) {
	p := (*condT)(unsafe.Pointer(c))
	k := key(unsafe.Pointer(&p.wait))
	point("signal", k)
	release(k)
	for p.head != nil {
		condPop(p)
	}
}

func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x interface{}) {}

func OnceDo(o *sync.Once, f func()) {
	p := (*[4]uint32)(unsafe.Pointer(o))
	k := key(unsafe.Pointer(o))
	for {
		point("once", k)
		if p[0] != 1 {
			break
		}
		waitOn(k, "once")
	}
	event("once", k)
	acquire(k)
	if p[0] == 2 {
		return
	}
	p[0] = 1
	defer func() {
		p[0] = 2
		event("once", k)
		release(k)
		wake(k)
	}()
	f()
}
