package vx

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"unsafe"
)

func fmtNative(format string, args []interface{}) string      { return "" }
func jsonMarshal(v interface{}, prefix, indent string) []byte { return nil }
func jsonUnmarsh(d []byte, v interface{}) bool                { return false }
func flatten(v interface{}, big bool) []byte                  { return nil }
func unflatten(d []byte, v interface{}, big bool) int         { return 0 }
func typeName(v interface{}) string                           { return "" }

// ---- fmt ----

func fmtArgs(args []interface{}) []interface{} {
	out := make([]interface{}, len(args))
	for i, a := range args {
		switch x := a.(type) {
		case error:
			out[i] = x.Error()
		case fmt.Stringer:
			out[i] = x.String()
		default:
			out[i] = a
		}
	}
	return out
}

func FmtSprintf(format string, args ...interface{}) string { return fmtNative(format, fmtArgs(args)) }

func sprint(args []interface{}, ln bool) string {
	s := ""
	for i, a := range fmtArgs(args) {
		if i > 0 && ln {
			s += " "
		}
		s += fmtNative("%v", []interface{}{a})
	}
	if ln {
		s += "\n"
	}
	return s
}

func FmtSprint(args ...interface{}) string   { return sprint(args, false) }
func FmtSprintln(args ...interface{}) string { return sprint(args, true) }
func FmtFprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(FmtSprintf(format, args...)))
}
func FmtFprint(w io.Writer, args ...interface{}) (int, error)   { return w.Write([]byte(sprint(args, false))) }
func FmtFprintln(w io.Writer, args ...interface{}) (int, error) { return w.Write([]byte(sprint(args, true))) }
func FmtPrintf(format string, args ...interface{}) (int, error) {
	return FmtFprintf(os.Stdout, format, args...)
}
func FmtPrint(args ...interface{}) (int, error)   { return FmtFprint(os.Stdout, args...) }
func FmtPrintln(args ...interface{}) (int, error) { return FmtFprintln(os.Stdout, args...) }

type wrapErr struct {
	msg  string
	errs []error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error {
	if len(e.errs) > 0 {
		return e.errs[0]
	}
	return nil
}

// FmtErrorf keeps the format as the message (error texts are not modelled) and the %w chain.
func FmtErrorf(format string, args ...interface{}) error {
	e := &wrapErr{msg: format}
	k := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '#' || format[i] == '+' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < len(args) {
			if x, ok := args[k].(error); ok {
				e.errs = append(e.errs, x)
			}
		}
		k++
	}
	return e
}

// FmtSscanf supports a single %x / %d / %v verb.
func FmtSscanf(s string, format string, args ...interface{}) (int, error) {
	if len(args) != 1 || len(format) != 2 || format[0] != '%' {
		Unsupported("Sscanf " + format)
	}
	base := uint64(10)
	if format[1] == 'x' || format[1] == 'X' {
		base = 16
	}
	var v uint64
	i := 0
	for ; i < len(s); i++ {
		c := s[i]
		var d uint64
		switch {
		case c >= '0' && c <= '9':
			d = uint64(c - '0')
		case base == 16 && c >= 'a' && c <= 'f':
			d = uint64(c-'a') + 10
		case base == 16 && c >= 'A' && c <= 'F':
			d = uint64(c-'A') + 10
		default:
			d = 99
		}
		if d == 99 {
			break
		}
		v = v*base + d
	}
	if i == 0 {
		return 0, errors.New("expected integer")
	}
	switch p := args[0].(type) {
	case *uint32:
		if v>>32 != 0 {
			return 0, errors.New("unsigned integer overflow")
		}
		*p = uint32(v)
	case *uint64:
		*p = v
	case *int:
		*p = int(v)
	case *int64:
		*p = int64(v)
	default:
		Unsupported("Sscanf argument " + typeName(args[0]))
	}
	return 1, nil
}

// ---- log ----

var Logged int

func logW(s string) {
	Logged++
}
func LogPrintf(format string, args ...interface{})               { Logged++ }
func LogPrint(args ...interface{})                               { Logged++ }
func LogPrintln(args ...interface{})                             { Logged++ }
func LogFatalf(format string, args ...interface{})               { Logged++; OsExit(1) }
func LogFatal(args ...interface{})                               { Logged++; OsExit(1) }
func LogFatalln(args ...interface{})                             { Logged++; OsExit(1) }
func LogPanicf(format string, args ...interface{})               { Logged++; panic(FmtSprintf(format, args...)) }
func LogSet(string)                                      {}
func LogFlags(int)                                       {}
func LLPrintf(l *log.Logger, format string, args ...interface{}) { Logged++ }
func LLPrint(l *log.Logger, args ...interface{})                 { Logged++ }

// ---- errors ----

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case *wrapErr:
			for _, e := range x.errs {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		default:
			return false
		}
	}
	return target == nil
}

// ---- encoding/binary, encoding/json ----

func isBig(o binary.ByteOrder) bool { return typeName(o) == "encoding/binary.bigEndian" }

func BinaryWrite(w io.Writer, o binary.ByteOrder, v interface{}) error {
	_, err := w.Write(flatten(v, isBig(o)))
	return err
}

func BinaryRead(r io.Reader, o binary.ByteOrder, v interface{}) error {
	n := unflatten(nil, v, isBig(o))
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	unflatten(b, v, isBig(o))
	return nil
}

func BinarySize(v interface{}) int { return len(flatten(v, true)) }

func JsonMarshal(v interface{}) ([]byte, error) { return jsonMarshal(v, "", ""), nil }
func JsonMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	if indent == "" {
		indent = " "
		Unsupported("MarshalIndent without indent")
	}
	return jsonMarshal(v, prefix, indent), nil
}
func JsonUnmarshal(d []byte, v interface{}) error {
	if !jsonUnmarsh(d, v) {
		return errors.New("json: invalid input")
	}
	return nil
}

type jenc struct {
	w           io.Writer
	err         error
	esc         bool
	buf         []byte
	pre, indent string
}

func JsonEncode(e *json.Encoder, v interface{}) error {
	x := (*jenc)(unsafe.Pointer(e))
	d := jsonMarshal(v, x.pre, x.indent)
	d = append(d, '\n')
	_, err := x.w.Write(d)
	return err
}

type jdec struct{ r io.Reader }

func JsonDecode(e *json.Decoder, v interface{}) error {
	x := (*jdec)(unsafe.Pointer(e))
	d, err := io.ReadAll(x.r)
	if err != nil {
		return err
	}
	if len(d) == 0 {
		return io.EOF
	}
	return JsonUnmarshal(d, v)
}

func ReflDeepEqual(a, b interface{}) bool {
	Unsupported("reflect.DeepEqual")
	return reflect.DeepEqual(a, b)
}

// ---- command line ----

type exitT struct{ code int }

var (
	cliDepth int
	cliExit  bool
	cliCode  int
)

func procStart(func([]string) error) {}
func procThreads() int               { return 0 }
func procEnd(int)                    {}

func runCLI(args []string, f func(args []string) error) (out []byte, failed bool) {
	stdout.n.data = nil
	nt := procThreads()
	procStart(f)
	cliDepth++
	cliExit = false
	cliCode = 0
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(exitT); !ok {
					panic(x)
				}
			}
		}()
		if err := f(args); err != nil {
			failed = true
		}
	}()
	cliDepth--
	procEnd(nt)
	if cliExit && cliCode != 0 {
		failed = true
	}
	fsDead = false
	// the process ends: its files are closed and its locks released
	for _, o := range fsFds {
		if o != nil && !o.capture && !o.closed {
			o.closed = true
			o.unlock()
		}
	}
	return append([]byte(nil), stdout.n.data...), failed
}

// Redirects lists the models: real function = model.
const Redirects = `
os.OpenFile=OsOpenFile os.Open=OsOpen os.Create=OsCreate os.Stat=OsStat os.Lstat=OsLstat os.SameFile=OsSameFile
os.ReadDir=OsReadDir os.Mkdir=OsMkdir os.MkdirAll=OsMkdirAll os.Remove=OsRemove os.RemoveAll=OsRemoveAll os.Rename=OsRename
os.Symlink=OsSymlink os.Readlink=OsReadlink os.ReadFile=OsReadFile os.WriteFile=OsWriteFile os.Truncate=OsTruncate
os.MkdirTemp=OsMkdirTemp os.CreateTemp=OsCreateTemp os.TempDir=OsTempDir os.Getwd=OsGetwd os.Chdir=OsChdir os.Chmod=OsChmod
os.Getenv=OsGetenv os.LookupEnv=OsLookupEnv os.Setenv=OsSetenv os.Unsetenv=OsUnsetenv os.UserHomeDir=OsUserHomeDir os.Getpid=OsGetpid os.Exit=OsExit
os.Executable=OsExecutable os.Hostname=OsHostname
(*os.File).Read=FRead (*os.File).ReadAt=FReadAt (*os.File).Write=FWrite (*os.File).WriteString=FWriteString (*os.File).WriteAt=FWriteAt
(*os.File).Seek=FSeek (*os.File).Close=FClose (*os.File).Fd=FFd (*os.File).Name=FName (*os.File).Sync=FSync (*os.File).Truncate=FTruncate
(*os.File).Chmod=FChmod (*os.File).ReadFrom=FReadFrom (*os.File).WriteTo=FWriteTo (*os.File).Stat=FStat (*os.File).ReadDir=FReadDir
(*os.File).Readdir=FReaddir (*os.File).Readdirnames=FReaddirnames
golang.org/x/sys/unix.Flock=UnixFlock syscall.Flock=UnixFlock
(*sync.Mutex).Lock=MuLock (*sync.Mutex).TryLock=MuTryLock (*sync.Mutex).Unlock=MuUnlock
(*sync.RWMutex).Lock=RWLock (*sync.RWMutex).Unlock=RWUnlock (*sync.RWMutex).RLock=RWRLock (*sync.RWMutex).RUnlock=RWRUnlock
(*sync.WaitGroup).Add=WGAdd (*sync.WaitGroup).Done=WGDone (*sync.WaitGroup).Wait=WGWait (*sync.WaitGroup).Go=WGGo
(*sync.Cond).Wait=CondWait (*sync.Cond).Signal=CondSignal (*sync.Cond).Broadcast=CondBroadcast
(*sync.Pool).Get=PoolGet (*sync.Pool).Put=PoolPut (*sync.Once).Do=OnceDo
fmt.Sprintf=FmtSprintf fmt.Sprint=FmtSprint fmt.Sprintln=FmtSprintln fmt.Fprintf=FmtFprintf fmt.Fprint=FmtFprint fmt.Fprintln=FmtFprintln
fmt.Printf=FmtPrintf fmt.Print=FmtPrint fmt.Println=FmtPrintln fmt.Errorf=FmtErrorf fmt.Sscanf=FmtSscanf
log.Printf=LogPrintf log.Print=LogPrint log.Println=LogPrintln log.Fatalf=LogFatalf log.Fatal=LogFatal log.Fatalln=LogFatalln log.Panicf=LogPanicf
log.SetPrefix=LogSet log.SetFlags=LogFlags (*log.Logger).Printf=LLPrintf (*log.Logger).Println=LLPrint (*log.Logger).Print=LLPrint
errors.Is=ErrorsIs errors.is=ErrorsIs
encoding/binary.Write=BinaryWrite encoding/binary.Read=BinaryRead encoding/binary.Size=BinarySize
encoding/json.Marshal=JsonMarshal encoding/json.MarshalIndent=JsonMarshalIndent encoding/json.Unmarshal=JsonUnmarshal
(*encoding/json.Encoder).Encode=JsonEncode (*encoding/json.Decoder).Decode=JsonDecode
`
