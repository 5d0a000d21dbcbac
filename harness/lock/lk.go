package lock

import (
	"path/filepath"

	"github.com/go-air/dupi/internal/vx"
)

// VerifLock: P16 at the level of lock files: every sequence of operations of three holders.
func VerifLock() {
	dir := vx.TempDir()
	path := filepath.Join(dir, "x.lock")
	n := vx.Param("holders", 2)
	fs := make([]*File, n)
	mode := make([]int, n) // 0 none, 1 shared, 2 exclusive
	for i := range fs {
		f, err := New(path)
		vx.Assert(err == nil, "open a lock file")
		fs[i] = f
	}
	steps := vx.Param("steps", 4)
	for s := 0; s < steps; s++ {
		i := vx.Choose("who", n)
		op := vx.Choose("op", 4)
		if fs[i] == nil {
			f, err := New(path)
			vx.Assert(err == nil, "open a lock file again")
			fs[i] = f
		}
		othersShared, othersExcl := false, false
		for j := range fs {
			if j != i {
				othersShared = othersShared || mode[j] == 1
				othersExcl = othersExcl || mode[j] == 2
			}
		}
		switch op {
		case 0, 1:
			if mode[i] != 0 {
				vx.Done()
			}
			f := fs[i]
			var err error
			blocked := vx.WouldBlock(func() {
				if op == 0 {
					err = f.LockShared()
				} else {
					err = f.Lock()
				}
			})
			if op == 0 {
				vx.Assert(blocked == othersExcl, "a shared lock waits exactly for a writer")
			} else {
				vx.Assert(blocked == (othersExcl || othersShared), "an exclusive lock waits exactly for every other holder")
			}
			if blocked {
				vx.Reach("blocked")
				// everyone else lets go: it must get through
				for j := range fs {
					if j != i && mode[j] != 0 {
						if vx.Bool("byclose") {
							vx.Assert(fs[j].Close() == nil, "close")
						} else {
							vx.Assert(fs[j].Unlock() == nil, "unlock")
						}
					}
				}
				vx.Settle()
				again, err2 := New(path)
				vx.Assert(err2 == nil, "open a lock file for probing")
				got := vx.WouldBlock(func() { again.Lock() })
				vx.Assert(got, "a waiting locker gets the lock once the others release it")
				return
			}
			vx.Assert(err == nil, "locking succeeds")
			mode[i] = 1 + op
		case 2:
			vx.Assert(fs[i].Unlock() == nil, "unlock")
			mode[i] = 0
		case 3:
			vx.Assert(fs[i].Close() == nil, "close")
			mode[i] = 0
			fs[i] = nil
			vx.Reach("closed")
		}
	}
}
