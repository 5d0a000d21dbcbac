package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// faultHook gives an overlay for the standard library's os package with a
// hook that can make file operations fail, for replaying faults natively.
func faultHook(repo string) (map[string][]byte, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir, cmd.Env = repo, goEnv()
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(strings.TrimSpace(string(b)), "src", "os")
	out := map[string][]byte{}
	patch := func(file, fn, code string) {
		p := filepath.Join(dir, file)
		if out[p] == nil {
			out[p], _ = os.ReadFile(p)
		}
		s := string(out[p])
		i := strings.Index(s, "\n"+fn)
		if i < 0 {
			err = fmt.Errorf("fault hook: no %q in %s", fn, p)
			return
		}
		i += 1 + len(fn)
		out[p] = []byte(s[:i] + " " + code + s[i:])
	}
	f := func(op, n, ret, extra string) string {
		return `if VerifHook != nil && f != nil { if s, e := VerifHook("` + op + `", f, f.name, 0, ` + n + `); e != nil { _ = s; ` + extra + ` return ` + ret + ` } };`
	}
	pe := func(op string) string { return `&PathError{Op: "` + op + `", Path: f.name, Err: e}` }
	patch("file.go", "func (f *File) Write(b []byte) (n int, err error) {", f("write", "len(b)", "s, "+pe("write"), "if s > 0 { f.pfd.Write(b[:s]) };"))
	patch("file.go", "func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", f("write", "len(b)", "s, "+pe("write"), "if s > 0 { f.pfd.Pwrite(b[:s], off) };"))
	patch("file.go", "func (f *File) Read(b []byte) (n int, err error) {", f("read", "0", "0, "+pe("read"), ""))
	patch("file.go", "func (f *File) ReadAt(b []byte, off int64) (n int, err error) {", f("read", "0", "0, "+pe("read"), ""))
	patch("file.go", "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {", "if VerifHook != nil { return genericReadFrom(f, r) };")
	patch("file.go", "func (f *File) WriteTo(w io.Writer) (n int64, err error) {", "if VerifHook != nil { return genericWriteTo(f, w) };")
	patch("file_posix.go", "func (f *File) Close() error {", `if VerifHook != nil && f != nil { if _, e := VerifHook("close", f, f.name, 0, 0); e != nil { f.file.close(); return `+pe("close")+` } };`)
	patch("file_posix.go", "func (f *File) Truncate(size int64) error {", f("truncate", "0", pe("truncate"), ""))
	patch("file_posix.go", "func (f *File) Sync() error {", f("sync", "0", pe("sync"), ""))
	patch("stat_unix.go", "func (f *File) Stat() (FileInfo, error) {", f("stat", "0", "nil, "+pe("stat"), ""))
	path := func(op, ret string) string {
		return `if VerifHook != nil { if _, e := VerifHook("` + op + `", nil, name, 0, 0); e != nil { return ` + ret + `&PathError{Op: "` + op + `", Path: name, Err: e} } };`
	}
	patch("stat.go", "func Stat(name string) (FileInfo, error) {", path("stat", "nil, "))
	patch("file_unix.go", "func Truncate(name string, size int64) error {", path("truncate", ""))
	patch("file.go", "func Mkdir(name string, perm FileMode) error {", path("mkdir", ""))
	patch("file.go", "func Rename(oldpath, newpath string) error {", `if VerifHook != nil { if _, e := VerifHook("rename", nil, oldpath, 0, 0); e != nil { return &LinkError{"rename", oldpath, newpath, e} }; defer VerifHook("renamed", nil, newpath, 0, 0) };`)
	p := filepath.Join(dir, "file.go")
	patch("file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {", `if VerifHook != nil { if _, e := VerifHook("open", nil, name, flag, 0); e != nil { return nil, &PathError{Op: "open", Path: name, Err: e} }; f, err := verifOpenFile(name, flag, perm); if err == nil { VerifHook("opened", f, name, flag, 0) }; return f, err }; return verifOpenFile(name, flag, perm) };
func verifOpenFile(name string, flag int, perm FileMode) (*File, error) {`)
	if err != nil {
		return nil, err
	}
	out[p] = append(out[p], "\nvar VerifHook func(op string, f *File, name string, flag, n int) (int, error)\n"...)
	out[filepath.Join(repo, "internal/vx/zz_verif_fault_native.go")] = []byte(`package vx

import "os"

func init() {
	installFault = func(h func(op string, f *os.File, name string, flag, n int) (int, error)) { os.VerifHook = h }
}
`)
	return out, nil
}
