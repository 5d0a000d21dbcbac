package vx

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
)

// Failing file operations. Every file below a directory counts its
// operations (changes with kind 0: creating, opening for writing, writing,
// truncating, renaming, closing after writing; reads with kind 1: opening for
// reading, reading, asking for the size). One of them can be made to fail,
// once or from then on.

const faultBig = 1 << 40

// FaultKinds
const (
	FaultChanges = 0
	FaultReads   = 1
)

var (
	faultRoot    string
	faultKind    int
	faultFile    string
	faultAt      int // the operation that fails; -1: none
	faultSticky  bool
	faultPartial bool
	faultHit     bool

	// the model's files
	faultNodes []*inode

	// natively
	faultMu     sync.Mutex
	faultCounts map[string]int
	faultWr     map[*os.File]bool
	faultOld    string
	// set when the os package was built with its hook
	installFault func(func(op string, f *os.File, name string, flag, n int) (int, error))
)

// Fault starts counting the operations of the files below root. The k-th
// operation (from 0) on file (relative to root, "" for root itself) fails.
func Fault(root string, kind int, file string, k int, sticky, partial bool) {
	faultRoot, faultKind, faultFile, faultAt = filepath.Clean(root), kind, file, k
	faultSticky, faultPartial, faultHit = sticky, partial, false
	faultNodes = nil
	if InEngine() {
		return
	}
	if installFault == nil {
		panic("vx: no fault hook in this build")
	}
	faultCounts = map[string]int{}
	faultWr = map[*os.File]bool{}
	installFault(nativeFault)
}

// FaultEnd stops counting and gives each file's number of operations, by
// name, and whether the fault happened.
func FaultEnd() (names []string, counts []int, hit bool) {
	add := func(name string, c int) {
		if c <= 0 {
			return
		}
		i := len(names)
		for i > 0 && names[i-1] > name {
			i--
		}
		names = append(names, "")
		copy(names[i+1:], names[i:])
		names[i] = name
		counts = append(counts, 0)
		copy(counts[i+1:], counts[i:])
		counts[i] = c
	}
	if InEngine() {
		for _, n := range faultNodes {
			if faultKind == FaultReads {
				add(n.frel, faultBig-n.rleft)
			} else {
				add(n.frel, faultBig-n.left)
			}
			n.left, n.rleft = 0, 0
		}
		faultNodes = nil
	} else {
		installFault(nil)
		for k, v := range faultCounts {
			add(k, v)
		}
	}
	faultRoot = ""
	return names, counts, faultHit
}

func faultRel(path string) (string, bool) {
	p := filepath.Clean(absPath(path))
	if p == faultRoot {
		return "", true
	}
	if strings.HasPrefix(p, faultRoot+"/") {
		return p[len(faultRoot)+1:], true
	}
	return "", false
}

// watch makes n, reached by path, count.
func (n *inode) watch(path string) {
	if faultRoot == "" || n.left != 0 || n.rleft != 0 {
		return
	}
	rel, ok := faultRel(path)
	if !ok {
		return
	}
	left := faultBig
	if rel == faultFile && faultAt >= 0 {
		left = faultAt + 1
	}
	for i, o := range faultNodes {
		if o.frel == rel {
			// a new file of the same name goes on counting
			n.frel, n.left, n.rleft = rel, o.left, o.rleft
			faultNodes[i] = n
			return
		}
	}
	n.frel = rel
	if faultKind == FaultReads {
		n.rleft = left
	} else {
		n.left = left
	}
	faultNodes = append(faultNodes, n)
}

func (n *inode) renamed(path string) {
	if n.left == 0 && n.rleft == 0 {
		return
	}
	if rel, ok := faultRel(path); ok {
		for i, o := range faultNodes {
			if o != n && o.frel == rel {
				faultNodes = append(append([]*inode(nil), faultNodes[:i]...), faultNodes[i+1:]...)
				break
			}
		}
		n.frel = rel
	}
}

func faultStep(left *int) bool {
	if *left == 0 {
		return false
	}
	if *left > 1 {
		*left--
		return false
	}
	faultHit = true
	if !faultSticky {
		*left = faultBig
	}
	return true
}

func (n *inode) change() bool { return faultStep(&n.left) }
func (n *inode) reading() bool {
	return faultStep(&n.rleft)
}

// nativeFault decides about one operation of the os package.
func nativeFault(op string, f *os.File, name string, flag, n int) (int, error) {
	if !strings.HasPrefix(name, "/") {
		d, err := syscall.Getwd()
		if err != nil {
			return 0, nil
		}
		name = d + "/" + name
	}
	name = filepath.Clean(name)
	rel := ""
	if name != faultRoot {
		if !strings.HasPrefix(name, faultRoot+"/") {
			return 0, nil
		}
		rel = name[len(faultRoot)+1:]
	}
	faultMu.Lock()
	defer faultMu.Unlock()
	kind := FaultChanges
	switch op {
	case "open":
		if flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) == 0 {
			kind = FaultReads
		}
	case "opened":
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			faultWr[f] = true
		}
		return 0, nil
	case "renamed": // followed by the old name
		if c, ok := faultCounts[faultOld]; ok {
			delete(faultCounts, faultOld)
			faultCounts[rel] = c
		}
		return 0, nil
	case "rename":
		faultOld = rel
	case "close":
		if !faultWr[f] {
			return 0, nil
		}
		delete(faultWr, f)
	case "read", "stat":
		kind = FaultReads
	}
	if kind != faultKind || rel == "" && op != "mkdir" {
		return 0, nil
	}
	c := faultCounts[rel]
	faultCounts[rel] = c + 1
	if rel != faultFile || faultAt < 0 || c < faultAt || c > faultAt && !faultSticky {
		return 0, nil
	}
	faultHit = true
	return faultResult(n)
}

func faultResult(n int) (int, error) {
	if faultKind == FaultReads {
		return 0, syscall.EIO
	}
	if faultPartial {
		return n / 2, syscall.ENOSPC
	}
	return 0, syscall.ENOSPC
}
