package vx

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// An in-memory file system that stands for the operating system under the engine.

type inode struct {
	dir        bool
	link       string // symbolic link
	data       []byte
	kids       map[string]*inode
	names      []string // kids in creation order
	unreadable bool
	full       bool // writes fail (no space)
	// sparse: data sits at xoff in a file of the given size
	sparse bool
	size   int64
	xoff   int64
	// advisory lock
	lkEx *ofile
	lkSh int
	lkey [1]int
	mode fs.FileMode
	// operations left before one fails (0: not counting), see fault.go
	left, rleft int
	frel        string
}

type ofile struct {
	n       *inode
	path    string
	pos     int64
	rd, wr  bool
	app     bool
	closed  bool
	fd      int
	lk      int
	dirpos  int
	capture bool
	plain   bool
	shared  bool // opened before several goroutines use it
}

type xfile struct {
	f os.File
	o *ofile
}

var (
	fsRoot   *inode
	fsCwd          = "/w"
	fsLimit  int64 = -1
	fsTmp    int
	fsFds    []*ofile
	fsEnv    map[string]string
	fsDead   bool
	stdout   *ofile
	stderr   *ofile
	FsWrites int // write operations so far
	FsOpen   int // open files
)

func init() {
	if !InEngine() {
		return
	}
	os.ErrInvalid = fs.ErrInvalid
	os.ErrPermission = fs.ErrPermission
	os.ErrExist = fs.ErrExist
	os.ErrNotExist = fs.ErrNotExist
	os.ErrClosed = fs.ErrClosed
	os.Args = []string{"dupi"}
	fsRoot = newDir()
	fsRoot.put("w", newDir())
	fsRoot.put("tmp", newDir())
	fsRoot.put("home", newDir())
	fsEnv = map[string]string{"HOME": "/home", "TMPDIR": "/tmp"}
	dev := newDir()
	fsRoot.put("dev", dev)
	dev.put("full", &inode{full: true})
	dev.put("null", &inode{})
	stdout = &ofile{n: &inode{}, path: "/dev/stdout", wr: true, fd: 1, capture: true}
	stderr = &ofile{n: &inode{}, path: "/dev/stderr", wr: true, fd: 2, capture: true}
	fsFds = []*ofile{{closed: true}, stdout, stderr}
	os.Stdout = wrapFile(stdout)
	os.Stderr = wrapFile(stderr)
	os.Stdin = wrapFile(&ofile{n: &inode{}, path: "/dev/stdin", rd: true})
}

func newDir() *inode { return &inode{dir: true, kids: map[string]*inode{}} }

func (n *inode) put(name string, k *inode) {
	if _, ok := n.kids[name]; !ok {
		n.names = append(n.names, name)
	}
	n.kids[name] = k
}

func (n *inode) del(name string) {
	delete(n.kids, name)
	var out []string
	for _, x := range n.names {
		if x != name {
			out = append(out, x)
		}
	}
	n.names = out
}

func wrapFile(o *ofile) *os.File {
	x := &xfile{o: o}
	return (*os.File)(unsafe.Pointer(x))
}

func unwrap(f *os.File) *ofile { return (*xfile)(unsafe.Pointer(f)).o }

func absPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = fsCwd + "/" + p
	}
	return p
}

// walk resolves a path; the last component is not followed if it is a link and follow is false.
// It returns the directory, the last name, the node (nil if missing) and an error for the prefix.
func walkPath(p string, follow bool, depth int) (*inode, string, *inode, error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	abs := absPath(p)
	slash := strings.HasSuffix(abs, "/")
	parts := strings.Split(abs, "/")
	stack := []*inode{fsRoot}
	names := []string{""}
	cur := fsRoot
	last := -1
	for i, s := range parts {
		if s != "" && s != "." {
			last = i
		}
	}
	for i, s := range parts {
		if s == "" || s == "." {
			continue
		}
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if cur.unreadable {
			return nil, "", nil, syscall.EACCES
		}
		if s == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			cur = stack[len(stack)-1]
			continue
		}
		k := cur.kids[s]
		if k == nil {
			if i == last {
				return cur, s, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if k.link != "" && (i != last || follow || slash) {
			t := k.link
			if !strings.HasPrefix(t, "/") {
				t = strings.Join(names, "/") + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			return walkPath(t, follow, depth+1)
		}
		stack = append(stack, k)
		names = append(names, s)
		cur = k
	}
	if slash && !cur.dir {
		return nil, "", nil, syscall.ENOTDIR
	}
	if len(stack) < 2 {
		return nil, "", cur, nil
	}
	return stack[len(stack)-2], names[len(names)-1], cur, nil
}

func lookup(p string, follow bool) (*inode, error) {
	_, _, n, err := walkPath(p, follow, 0)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, nil
}

func mkfile(p string) *inode {
	d, name, n, err := walkPath(p, true, 0)
	if err != nil {
		panic(err)
	}
	if n == nil {
		n = &inode{}
		d.put(name, n)
	}
	return n
}

func perr(op, path string, e error) error {
	if errno, ok := e.(syscall.Errno); ok && errno == 0 {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: e}
}

func OsOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	d, name, n, err := walkPath(path, true, 0)
	if err != nil {
		return nil, perr("open", path, err)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 || fsDead || strings.HasSuffix(path, "/") {
			return nil, perr("open", path, syscall.ENOENT)
		}
		n = &inode{}
		n.watch(path)
		if n.change() {
			_, e := faultResult(0)
			return nil, perr("open", path, e)
		}
		d.put(name, n)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", path, syscall.EEXIST)
	} else if faultRoot != "" && !n.dir {
		n.watch(path)
		if flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0 && n.change() || flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) == 0 && n.reading() {
			_, e := faultResult(0)
			return nil, perr("open", path, e)
		}
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n.dir && (wr || flag&os.O_CREATE != 0) {
		return nil, perr("open", path, syscall.EISDIR)
	}
	if n.unreadable {
		return nil, perr("open", path, syscall.EACCES)
	}
	if flag&os.O_TRUNC != 0 && wr && !fsDead {
		n.data = nil
		n.sparse = false
	}
	o := &ofile{n: n, path: path, wr: wr, rd: flag&os.O_WRONLY == 0, app: flag&os.O_APPEND != 0, fd: len(fsFds)}
	o.plain = wr && !o.app && !n.sparse
	o.shared = !filePoints
	fsFds = append(fsFds, o)
	FsOpen++
	return wrapFile(o), nil
}

func OsOpen(path string) (*os.File, error) { return OsOpenFile(path, os.O_RDONLY, 0) }
func OsCreate(path string) (*os.File, error) {
	return OsOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func badf(o *ofile, op string) error {
	if o == nil {
		return os.ErrInvalid
	}
	if o.closed {
		return &fs.PathError{Op: op, Path: o.path, Err: os.ErrClosed}
	}
	return nil
}

// filePoints: operations that use or move the offset of a file opened earlier
// are scheduling points.
var filePoints bool

func (o *ofile) point() {
	if filePoints && o != nil && o.shared && !o.capture {
		point("file", key(unsafe.Pointer(o)))
	}
}

// FilePoints makes operations on the offsets of the files open now scheduling points.
func FilePoints() {
	filePoints = true
	if !InEngine() {
		started = time.Now()
	}
}

func fget(f *os.File) *ofile {
	if f == nil {
		return nil
	}
	return unwrap(f)
}

// pread without bookkeeping: bytes copied.
func (n *inode) pread(b []byte, off int64) int {
	if n.sparse {
		if off >= n.size || off < 0 {
			return 0
		}
		m := len(b)
		if off+int64(m) > n.size {
			m = ConcInt(int(n.size - off))
		}
		for i := 0; i < m; i++ {
			b[i] = 0
		}
		if off == n.xoff {
			copy(b[:m], n.data)
			return m
		}
		if off+int64(m) <= n.xoff || off >= n.xoff+int64(len(n.data)) {
			return m
		}
		d := ConcInt(int(off - n.xoff))
		if d >= 0 {
			copy(b[:m], n.data[d:])
		} else if -d < m {
			copy(b[-d:m], n.data)
		}
		return m
	}
	if off >= int64(len(n.data)) {
		return 0
	}
	o := ConcInt(int(off))
	return copy(b, n.data[o:])
}

func FRead(f *os.File, b []byte) (int, error) {
	o := fget(f)
	o.point()
	if err := badf(o, "read"); err != nil {
		return 0, err
	}
	if o.n.dir {
		return 0, perr("read", o.path, syscall.EISDIR)
	}
	if !o.rd {
		return 0, perr("read", o.path, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.n.reading() {
		_, e := faultResult(0)
		return 0, perr("read", o.path, e)
	}
	m := o.n.pread(b, o.pos)
	touched(b[:m], true)
	if m == 0 {
		return 0, io.EOF
	}
	o.pos += int64(m)
	return m, nil
}

func FReadAt(f *os.File, b []byte, off int64) (int, error) {
	o := fget(f)
	if err := badf(o, "read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: o.path, Err: errors.New("negative offset")}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.n.dir {
		return 0, perr("read", o.path, syscall.EISDIR)
	}
	if !o.rd {
		return 0, perr("read", o.path, syscall.EBADF)
	}
	if o.n.reading() {
		_, e := faultResult(0)
		return 0, perr("read", o.path, e)
	}
	m := o.n.pread(b, off)
	touched(b[:m], true)
	if m < len(b) {
		return m, io.EOF
	}
	return m, nil
}

func (n *inode) pwrite(b []byte, off int64) (int, error) {
	if n.full && len(b) > 0 {
		return 0, syscall.ENOSPC
	}
	if n.sparse {
		Unsupported("writing a sparse file")
	}
	var err error
	if n.change() {
		var s int
		s, err = faultResult(len(b))
		b = b[:s]
		if s == 0 {
			return 0, err
		}
	}
	FsWrites++
	if fsDead {
		return len(b), nil
	}
	if fsLimit >= 0 && off+int64(len(b)) > fsLimit {
		err = syscall.EFBIG
		if off >= fsLimit {
			return 0, err
		}
		b = b[:fsLimit-off]
	}
	o := ConcInt(int(off))
	if o == len(n.data) {
		n.data = append(n.data, b...)
		return len(b), err
	}
	if o+len(b) > len(n.data) {
		if o+len(b) > 1<<24 {
			Unsupported("file larger than the model")
		}
		n.data = append(n.data, make([]byte, o+len(b)-len(n.data))...)
	}
	copy(n.data[o:], b)
	return len(b), err
}

func FWrite(f *os.File, b []byte) (int, error) {
	o := fget(f)
	o.point()
	if o != nil && o.plain && fsLimit < 0 && !o.closed && !fsDead {
		if n := o.n; int(o.pos) == len(n.data) && !n.full && n.left == 0 {
			FsWrites++
			n.data = append(n.data, b...)
			o.pos += int64(len(b))
			return len(b), nil
		}
	}
	if err := badf(o, "write"); err != nil {
		return 0, err
	}
	if !o.wr {
		return 0, perr("write", o.path, syscall.EBADF)
	}
	if o.app {
		o.pos = int64(len(o.n.data))
	}
	if o.capture {
		o.n.data = append(o.n.data, b...)
		return len(b), nil
	}
	m, err := o.n.pwrite(b, o.pos)
	o.pos += int64(m)
	if err != nil {
		return m, perr("write", o.path, err)
	}
	return m, nil
}

func FWriteString(f *os.File, s string) (int, error) { return FWrite(f, []byte(s)) }

func FWriteAt(f *os.File, b []byte, off int64) (int, error) {
	o := fget(f)
	if err := badf(o, "write"); err != nil {
		return 0, err
	}
	if o.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: o.path, Err: errors.New("negative offset")}
	}
	if !o.wr {
		return 0, perr("write", o.path, syscall.EBADF)
	}
	m, err := o.n.pwrite(b, off)
	if err != nil {
		return m, perr("write", o.path, err)
	}
	return m, nil
}

func (n *inode) len() int64 {
	if n.sparse {
		return n.size
	}
	return int64(len(n.data))
}

func FSeek(f *os.File, off int64, whence int) (int64, error) {
	o := fget(f)
	o.point()
	if err := badf(o, "seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += o.pos
	case 2:
		off += o.n.len()
	}
	if off < 0 {
		return 0, perr("seek", o.path, syscall.EINVAL)
	}
	o.pos = off
	o.dirpos = 0
	return off, nil
}

func FClose(f *os.File) error {
	o := fget(f)
	if o == nil {
		return os.ErrInvalid
	}
	if o.closed {
		return &fs.PathError{Op: "close", Path: o.path, Err: os.ErrClosed}
	}
	o.closed = true
	FsOpen--
	o.unlock()
	if o.wr && o.n.change() {
		_, e := faultResult(0)
		return perr("close", o.path, e)
	}
	return nil
}

func FFd(f *os.File) uintptr {
	o := fget(f)
	if o == nil || o.closed {
		return ^uintptr(0)
	}
	return uintptr(o.fd)
}

func FName(f *os.File) string { return fget(f).path }

func FSync(f *os.File) error {
	o := fget(f)
	if err := badf(o, "sync"); err != nil {
		return err
	}
	if o.n.change() {
		_, e := faultResult(0)
		return perr("sync", o.path, e)
	}
	return nil
}

func FTruncate(f *os.File, size int64) error {
	o := fget(f)
	if err := badf(o, "truncate"); err != nil {
		return err
	}
	if !o.wr || size < 0 {
		return perr("truncate", o.path, syscall.EINVAL)
	}
	if o.n.change() {
		_, e := faultResult(0)
		return perr("truncate", o.path, e)
	}
	return o.n.truncate(size)
}

func (n *inode) truncate(size int64) error {
	s := ConcInt(int(size))
	if s <= len(n.data) {
		n.data = n.data[:s:s]
		return nil
	}
	if s > 1<<24 {
		Unsupported("file larger than the model")
	}
	n.data = append(n.data, make([]byte, s-len(n.data))...)
	return nil
}

func FChmod(f *os.File, m os.FileMode) error { return badf(fget(f), "chmod") }

func FReadFrom(f *os.File, r io.Reader) (n int64, err error) {
	var buf [512]byte
	for {
		k, e := r.Read(buf[:])
		m, we := FWrite(f, buf[:k])
		n += int64(m)
		if we != nil {
			return n, we
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

func FWriteTo(f *os.File, w io.Writer) (n int64, err error) {
	var buf [512]byte
	for {
		k, e := FRead(f, buf[:])
		if k > 0 {
			m, we := w.Write(buf[:k])
			n += int64(m)
			if we != nil {
				return n, we
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// finfo implements fs.FileInfo and fs.DirEntry.
type finfo struct {
	name string
	n    *inode
	size int64
}

func (i *finfo) Name() string { return i.name }
func (i *finfo) Size() int64  { return i.size }
func (i *finfo) Mode() fs.FileMode {
	switch {
	case i.n.dir:
		return fs.ModeDir | 0755
	case i.n.link != "":
		return fs.ModeSymlink | 0777
	case i.n.full:
		return fs.ModeDevice | fs.ModeCharDevice | 0666
	}
	return 0644
}
func (i *finfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i *finfo) ModTime() time.Time         { return time.Time{} }
func (i *finfo) IsDir() bool                { return i.n.dir }
func (i *finfo) Sys() interface{}                   { return nil }
func (i *finfo) Info() (fs.FileInfo, error) { return i, nil }

func info(name string, n *inode) *finfo { return &finfo{filepath.Base(name), n, n.len()} }

func FStat(f *os.File) (os.FileInfo, error) {
	o := fget(f)
	if err := badf(o, "stat"); err != nil {
		return nil, err
	}
	if o.n.reading() {
		_, e := faultResult(0)
		return nil, perr("stat", o.path, e)
	}
	return info(o.path, o.n), nil
}

func OsStat(p string) (os.FileInfo, error) {
	n, err := lookup(p, true)
	if err != nil {
		return nil, perr("stat", p, err)
	}
	if faultRoot != "" && !n.dir {
		n.watch(p)
		if n.reading() {
			_, e := faultResult(0)
			return nil, perr("stat", p, e)
		}
	}
	return info(p, n), nil
}

func OsLstat(p string) (os.FileInfo, error) {
	n, err := lookup(p, false)
	if err != nil {
		return nil, perr("lstat", p, err)
	}
	return info(p, n), nil
}

func OsSameFile(a, b os.FileInfo) bool { return a.(*finfo).n == b.(*finfo).n }

func (n *inode) entries() []*finfo {
	var out []*finfo
	for _, s := range n.names {
		k := &finfo{s, n.kids[s], n.kids[s].len()}
		i := len(out)
		for i > 0 && out[i-1].name > s {
			i--
		}
		out = append(out, nil)
		copy(out[i+1:], out[i:])
		out[i] = k
	}
	return out
}

func OsReadDir(p string) ([]os.DirEntry, error) {
	n, err := lookup(p, true)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if n.unreadable {
		return nil, perr("open", p, syscall.EACCES)
	}
	if !n.dir {
		return nil, perr("readdirent", p, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, e := range n.entries() {
		out = append(out, e)
	}
	return out, nil
}

func (o *ofile) batch(k int) ([]*finfo, error) {
	es := o.n.entries()
	if !o.n.dir {
		return nil, perr("readdirent", o.path, syscall.ENOTDIR)
	}
	if o.dirpos > len(es) {
		o.dirpos = len(es)
	}
	es = es[o.dirpos:]
	if k > 0 {
		if len(es) == 0 {
			return nil, io.EOF
		}
		if len(es) > k {
			es = es[:k]
		}
	}
	o.dirpos += len(es)
	return es, nil
}

func FReadDir(f *os.File, k int) ([]os.DirEntry, error) {
	o := fget(f)
	if err := badf(o, "readdir"); err != nil {
		return nil, err
	}
	es, err := o.batch(k)
	out := []os.DirEntry{}
	for _, e := range es {
		out = append(out, e)
	}
	return out, err
}

func FReaddir(f *os.File, k int) ([]os.FileInfo, error) {
	o := fget(f)
	if err := badf(o, "readdir"); err != nil {
		return nil, err
	}
	es, err := o.batch(k)
	out := []os.FileInfo{}
	for _, e := range es {
		out = append(out, e)
	}
	return out, err
}

func FReaddirnames(f *os.File, k int) ([]string, error) {
	o := fget(f)
	if err := badf(o, "readdir"); err != nil {
		return nil, err
	}
	es, err := o.batch(k)
	out := []string{}
	for _, e := range es {
		out = append(out, e.name)
	}
	return out, err
}

func OsMkdir(p string, perm os.FileMode) error {
	q := strings.TrimRight(p, "/")
	if q == "" {
		q = "/"
	}
	d, name, n, err := walkPath(q, true, 0)
	if err != nil {
		return perr("mkdir", p, err)
	}
	if n != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	k := newDir()
	if faultRoot != "" {
		k.watch(p)
		if k.change() {
			_, e := faultResult(0)
			return perr("mkdir", p, e)
		}
	}
	if !fsDead {
		d.put(name, k)
	}
	return nil
}

func OsMkdirAll(p string, perm os.FileMode) error {
	if n, err := lookup(p, true); err == nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	q := filepath.Clean(p)
	if d := filepath.Dir(q); d != q {
		if err := OsMkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := OsMkdir(q, perm)
	if err != nil {
		if n, e := lookup(q, true); e == nil && n.dir {
			return nil
		}
	}
	return err
}

func OsRemove(p string) error {
	d, name, n, err := walkPath(p, false, 0)
	if err != nil {
		return perr("remove", p, err)
	}
	if n == nil {
		return perr("remove", p, syscall.ENOENT)
	}
	if n.dir && len(n.names) > 0 || d == nil {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	if !fsDead {
		d.del(name)
	}
	return nil
}

func OsRemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if p == "." || strings.HasSuffix(p, "/.") {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	d, name, n, err := walkPath(p, false, 0)
	if err != nil {
		if err == syscall.ENOENT || err == syscall.ENOTDIR && false {
			return nil
		}
		return perr("unlinkat", p, err)
	}
	if n == nil {
		return nil
	}
	if d == nil {
		Unsupported("removing the root")
	}
	if !fsDead {
		d.del(name)
	}
	return nil
}

func OsRename(from, to string) error {
	d, name, n, err := walkPath(from, false, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	d2, name2, n2, err := walkPath(to, false, 0)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	if n2 != nil && n2.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	if n.change() {
		_, e := faultResult(0)
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	if !fsDead {
		d.del(name)
		d2.put(name2, n)
		n.renamed(to)
	}
	return nil
}

func OsSymlink(target, p string) error {
	d, name, n, err := walkPath(p, false, 0)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: err}
	}
	d.put(name, &inode{link: target})
	return nil
}

func OsReadlink(p string) (string, error) {
	n, err := lookup(p, false)
	if err == nil && n.link == "" {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", p, err)
	}
	return n.link, nil
}

func OsReadFile(p string) ([]byte, error) {
	f, err := OsOpen(p)
	if err != nil {
		return nil, err
	}
	defer FClose(f)
	o := unwrap(f)
	if o.n.dir {
		return nil, perr("read", p, syscall.EISDIR)
	}
	return append([]byte{}, o.n.data...), nil
}

func OsWriteFile(p string, d []byte, perm os.FileMode) error {
	f, err := OsOpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FWrite(f, d)
	if err1 := FClose(f); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OsTruncate(p string, size int64) error {
	n, err := lookup(p, true)
	if err != nil {
		return perr("truncate", p, err)
	}
	if faultRoot != "" {
		n.watch(p)
		if n.change() {
			_, e := faultResult(0)
			return perr("truncate", p, e)
		}
	}
	return n.truncate(size)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	fsTmp++
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return dir + "/" + pattern[:i] + itoa(fsTmp) + pattern[i+1:]
	}
	return dir + "/" + pattern + itoa(fsTmp)
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	p := tmpName(dir, pattern)
	return p, OsMkdir(p, 0700)
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	return OsOpenFile(tmpName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func OsTempDir() string { return "/tmp" }

func OsGetwd() (string, error) { return fsCwd, nil }

func OsChdir(p string) error {
	n, err := lookup(p, true)
	if err == nil && !n.dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", p, err)
	}
	fsCwd = filepath.Clean(absPath(p))
	return nil
}

func OsChmod(p string, m os.FileMode) error {
	n, err := lookup(p, true)
	if err != nil {
		return perr("chmod", p, err)
	}
	if m == 0 {
		n.unreadable = true
	}
	return nil
}

func OsGetenv(k string) string { return fsEnv[k] }

func OsLookupEnv(k string) (string, bool) {
	v, ok := fsEnv[k]
	return v, ok
}

func OsSetenv(k, v string) error {
	fsEnv[k] = v
	return nil
}

func OsUnsetenv(k string) error {
	delete(fsEnv, k)
	return nil
}

func OsUserHomeDir() (string, error) {
	if h := fsEnv["HOME"]; h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

func OsGetpid() int { return 42 }

func OsExit(code int) {
	fsDead = true
	if cliDepth > 0 {
		cliExit = true
		cliCode = code
		panic(exitT{code})
	}
	exitPath()
}

func OsExecutable() (string, error) { return "/bin/dupi", nil }
func OsHostname() (string, error)   { return "host", nil }

// ---- advisory locks ----

const (
	lockSh = 1
	lockEx = 2
	lockNb = 4
	lockUn = 8
)

func (o *ofile) unlock() {
	if o.lk == 0 {
		return
	}
	if o.lk == 2 {
		o.n.lkEx = nil
	} else {
		o.n.lkSh--
	}
	o.lk = 0
	k := key(unsafe.Pointer(&o.n.lkey[0]))
	event("funlock", k)
	release(k)
	wake(k)
}

func UnixFlock(fd int, how int) error {
	if fd < 0 || fd >= len(fsFds) || fsFds[fd].closed {
		return syscall.EBADF
	}
	o := fsFds[fd]
	k := key(unsafe.Pointer(&o.n.lkey[0]))
	switch how &^ lockNb {
	case lockUn:
		o.unlock()
		return nil
	case lockSh:
		if o.lk == 1 {
			return nil
		}
		// converting a lock is not atomic: the old one goes first
		o.unlock()
		for {
			point("flock", k)
			if o.n.lkEx == nil {
				break
			}
			if how&lockNb != 0 {
				return syscall.EWOULDBLOCK
			}
			waitOn(k, "file lock (shared)")
		}
		o.n.lkSh++
		o.lk = 1
	case lockEx:
		if o.lk == 2 {
			return nil
		}
		o.unlock()
		for {
			point("flock", k)
			if o.n.lkEx == nil && o.n.lkSh == 0 {
				break
			}
			if how&lockNb != 0 {
				return syscall.EWOULDBLOCK
			}
			waitOn(k, "file lock (exclusive)")
		}
		o.n.lkEx = o
		o.lk = 2
	default:
		return syscall.EINVAL
	}
	event("flock", k)
	acquire(k)
	return nil
}
