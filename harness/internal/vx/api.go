// Package vx is the interface between the harnesses and the symbolic
// execution engine. Under the engine most of these functions are intrinsics
// (inputs are solver variables); compiled natively they replay one recorded
// assignment against the real code and the real operating system.
package vx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// RuntimeError stands for Go's run-time errors under the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type replayT struct {
	Harness string
	Params  map[string]int64
	Inputs  map[string]uint64
	Words   map[string]string
}

var rep struct {
	sync.Mutex
	loaded bool
	r      replayT
	names  map[string]int
	fails  []string
	reach  []string
	obs    []string
	dirs   []string
	euid   bool
}

func load() *replayT {
	if !rep.loaded {
		rep.loaded = true
		rep.names = map[string]int{}
		d, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
		if err == nil {
			err = json.Unmarshal(d, &rep.r)
		}
		if err != nil {
			panic("vx: no replay file: " + err.Error())
		}
	}
	return &rep.r
}

func in(name string) uint64 {
	rep.Lock()
	defer rep.Unlock()
	r := load()
	n := rep.names[name]
	rep.names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return r.Inputs[name]
}

// Symbolic inputs.
func U8(name string) uint8   { return uint8(in(name)) }
func U16(name string) uint16 { return uint16(in(name)) }
func U32(name string) uint32 { return uint32(in(name)) }
func U64(name string) uint64 { return in(name) }
func Int(name string) int    { return int(in(name)) }
func Bool(name string) bool  { return in(name) != 0 }

// Bytes gives n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

// Param is a bound chosen per job.
func Param(name string, def int) int {
	rep.Lock()
	defer rep.Unlock()
	if v, ok := load().Params[name]; ok {
		return int(v)
	}
	return def
}

// InRange is a symbolic int in [lo,hi], case-split.
func InRange(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := U8(name)
	Assume(int(v) <= hi-lo)
	return lo + int(Conc(uint64(v)))
}

// Choose is InRange(0, n-1).
func Choose(name string, n int) int { return InRange(name, 0, n-1) }

type doneT struct{}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(doneT{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		rep.Lock()
		rep.fails = append(rep.fails, msg)
		rep.Unlock()
	}
}

// Reach marks a situation that must be reachable (vacuity guard).
func Reach(name string) {
	rep.Lock()
	rep.reach = append(rep.reach, name)
	rep.Unlock()
}

// Conc case-splits a value.
func Conc(v uint64) uint64 { return v }

func ConcInt(v int) int { return int(Conc(uint64(v))) }

// InEngine tells whether the harness runs under the engine.
func InEngine() bool { return false }

// Again says whether a goroutine repeats what it did r times: not under the
// engine, which takes every schedule; natively, to meet the others.
func Again(r int) bool {
	if InEngine() || r == 0 {
		return r == 0
	}
	return r < 40 && time.Since(started) < time.Second
}

var started time.Time

// Done ends this path.
func Done() { panic(doneT{}) }

// Observe records a value for the comparison of engine and native runs.
func Observe(name string, v uint64) {
	rep.Lock()
	rep.obs = append(rep.obs, fmt.Sprintf("%s=%d", name, v))
	rep.Unlock()
}

// FailF asserts false with a constant message.
func Fail(msg string) { Assert(false, msg) }

// HashWord gives a lower-case word whose 32-bit FNV-1 hash is an arbitrary
// (symbolic) value: under the engine a placeholder, natively a preimage.
func HashWord(name string) (word []byte, hash uint32) {
	h := U32("hash_" + name)
	return HashWordOf(name, h), h
}

// HashWordOf gives a lower-case word of eight letters whose hash is h;
// different names give different words.
func HashWordOf(name string, h uint32) []byte {
	if len(name) > 4 {
		panic("vx: HashWord name too long")
	}
	w := ("word" + name + "zzzz")[:8] // the preimages have eight letters, too
	hashWordReg(w, h)
	return realWord(w)
}

func realWord(w string) []byte {
	if InEngine() {
		return []byte(w)
	}
	rep.Lock()
	defer rep.Unlock()
	p, ok := load().Words[w]
	if !ok {
		panic("vx: no preimage for " + w)
	}
	return []byte(p)
}

var perturbing = os.Getenv("VERIF_SCHEDSEED") != ""

// Perturb pauses the goroutine now and then (natively, when replaying a
// schedule). It must not order goroutines for the race detector.
func Perturb() {
	if !perturbing {
		return
	}
	h := uint64(time.Now().UnixNano())
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	switch h % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(1+h>>8%(64<<(h>>40%7))) * time.Microsecond)
	}
}

func hashWordReg(w string, h uint32) {}

// Run executes one harness natively; used by the generated replay test.
func Run(name string, f func()) (fails []string) {
	r := load()
	if name != r.Harness {
		return nil
	}
	cleanup := func() {
		if rep.euid {
			syscall.Seteuid(0)
			syscall.Setegid(0)
		}
		os.Chdir("/")
		lim := syscall.Rlimit{}
		if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) == nil {
			lim.Cur = lim.Max
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		}
		for _, d := range rep.dirs {
			filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
				if e != nil && e.IsDir() {
					os.Chmod(p, 0755)
				}
				return nil
			})
			os.RemoveAll(d)
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(doneT); ok {
					return
				}
				Assert(false, fmt.Sprintf("panic: %v", x))
			}
		}()
		f()
	}()
	t := 60 * time.Second
	if s := os.Getenv("VERIF_TIMEOUT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			t = d
		}
	}
	select {
	case <-done:
	case <-time.After(t):
		Assert(false, "hang: no result after "+t.String())
	}
	cleanup()
	rep.Lock()
	defer rep.Unlock()
	for _, o := range rep.obs {
		fmt.Println("OBS", o)
	}
	for _, o := range rep.reach {
		fmt.Println("REACH", o)
	}
	return append([]string(nil), rep.fails...)
}

// TempDir makes a fresh scratch directory (absolute path, removed after the run).
func TempDir() string {
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	if !InEngine() {
		os.Chmod(d, 0777)
		rep.Lock()
		rep.dirs = append(rep.dirs, d)
		rep.Unlock()
	}
	return d
}

// Chdir changes the working directory.
func Chdir(d string) {
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
}

// LimitFileSize makes every write beyond n bytes of a file fail from now on.
func LimitFileSize(n int64) {
	if InEngine() {
		fsLimit = n
		return
	}
	lim := syscall.Rlimit{}
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	lim.Cur = uint64(n)
	if n < 0 {
		lim.Cur = lim.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
}

// MakeUnreadable makes opening path (and listing it) fail with a permission error.
func MakeUnreadable(path string) {
	if InEngine() {
		if n, _ := lookup(path, true); n != nil {
			n.unreadable = true
		}
		return
	}
	if err := os.Chmod(path, 0); err != nil {
		panic(err)
	}
	if os.Geteuid() == 0 {
		for _, d := range rep.dirs {
			filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
				os.Lchown(p, 65534, 65534)
				return nil
			})
		}
		syscall.Setegid(65534)
		syscall.Seteuid(65534)
		rep.euid = true
	}
}

// WouldBlock runs f on its own goroutine and tells whether it cannot
// finish without further steps of the caller.
func WouldBlock(f func()) bool {
	var mu sync.Mutex
	done := false
	go func() {
		f()
		mu.Lock()
		done = true
		mu.Unlock()
	}()
	if InEngine() {
		quiesce()
		return !done
	}
	for i := 0; i < 100; i++ {
		time.Sleep(5 * time.Millisecond)
		mu.Lock()
		d := done
		mu.Unlock()
		if d {
			return false
		}
	}
	return true
}

func quiesce() {}

// RunCLI runs f(args) as a process of its own: its standard output, and
// whether it reported failure (an error, a fatal log message or a non-zero exit).
func RunCLI(args []string, f func(args []string) error) (out []byte, failed bool) {
	if InEngine() {
		return runCLI(args, f)
	}
	d, _ := json.Marshal(args)
	c := exec.Command(os.Args[0], "-test.run=^TestVerifCLI$")
	c.Env = append(os.Environ(), "VERIF_CLI="+string(d), "GOPS_CONFIG_DIR="+TempDir())
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		panic(err)
	}
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		c.Process.Kill()
		panic("command does not terminate")
	}
	if strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "goroutine ") {
		panic("command panics: " + se.String())
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("CLI %q: err=%v\nstdout:\n%sstderr:\n%s\n", args, err, so.String(), se.String())
	}
	return so.Bytes(), err != nil
}

// CLIMain is the child side of RunCLI.
func CLIMain(f func(args []string) error) {
	s := os.Getenv("VERIF_CLI")
	if s == "" {
		return
	}
	var args []string
	if err := json.Unmarshal([]byte(s), &args); err != nil {
		panic(err)
	}
	if err := f(args); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Exit(0)
}

// SparseFile makes a file of the given size whose only non-zero bytes are dat at off.
func SparseFile(path string, size, off int64, dat []byte) {
	if InEngine() {
		n := mkfile(path)
		n.sparse = true
		n.size = size
		n.xoff = off
		n.data = append([]byte(nil), dat...)
		return
	}
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(size); err != nil {
		panic(err)
	}
	if _, err := f.WriteAt(dat, off); err != nil {
		panic(err)
	}
}

// WriteFile creates a file; harness convenience.
func WriteFile(path string, d []byte) {
	if err := os.WriteFile(path, d, 0644); err != nil {
		panic(err)
	}
}

// Tree lists every path under dir ("d path", "f path content").
func Tree(dir string) []string {
	var out []string
	var walk func(p string)
	walk = func(p string) {
		es, err := os.ReadDir(p)
		if err != nil {
			return
		}
		for _, e := range es {
			q := filepath.Join(p, e.Name())
			if e.IsDir() {
				out = append(out, "d "+q)
				walk(q)
				continue
			}
			d, _ := os.ReadFile(q)
			out = append(out, "f "+q+" "+string(d))
		}
	}
	walk(dir)
	return out
}

// Soon says that the rest of the path ends within n instructions, else it is
// taken to hang (and replayed to find out); 0 lifts the limit.
func Soon(n int) {}

// ReadAll reads everything; harness convenience.
func ReadAll(r io.Reader) []byte {
	d, err := io.ReadAll(r)
	if err != nil {
		panic(err)
	}
	return d
}

// Settle lets the other goroutines run as far as they can.
func Settle() {
	if InEngine() {
		quiesce()
		return
	}
	time.Sleep(150 * time.Millisecond)
}
