package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is one incremental Z3 process whose assertion stack follows the path
// condition of the state being executed.
type Solver struct {
	tt       *TermTable
	bin      string
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	r        *bufio.Reader
	stack    []*Term
	defined  map[*Term]bool
	vars     []*Term // declared
	ufs      map[string]bool
	Queries  int
	SatN     int
	UnsatN   int
	UnkN     int
	Fallback int
	Time     time.Duration
	timeout  int // ms
	dump     io.Writer
	assertQ  int
	Errors   []string
	Cross    int // verdicts re-derived by a second solver
	CrossBad int
}

func NewSolver(tt *TermTable) *Solver {
	s := &Solver{tt: tt, bin: "z3-new", timeout: 5000}
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		s.bin = b
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.r = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.vars = nil
	s.ufs = map[string]bool{}
	s.stack = nil
	fmt.Fprintf(s.w, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtName(x *Term) string {
	switch x.op {
	case OConst:
		return constSMT(x.w, x.v)
	case OVar:
		return "|" + x.name + ":" + strconv.Itoa(int(x.w)) + "|"
	}
	return "t" + strconv.Itoa(int(x.id))
}

func smtBody(x *Term) string {
	switch x.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, smtName(x.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, smtName(x.a))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", x.v+uint64(x.w)-1, x.v, smtName(x.a))
	case OUF:
		if x.b != nil {
			return fmt.Sprintf("(%s %s %s)", x.name, smtName(x.a), smtName(x.b))
		}
		return fmt.Sprintf("(%s %s)", x.name, smtName(x.a))
	}
	str := "(" + opSMT[x.op] + " " + smtName(x.a)
	if x.b != nil {
		str += " " + smtName(x.b)
	}
	if x.c != nil {
		str += " " + smtName(x.c)
	}
	return str + ")"
}

// define writes definitions for x and everything below it.
func defineTerm(w io.Writer, x *Term, defined map[*Term]bool, ufs map[string]bool, onVar func(*Term)) {
	if x.op == OConst || defined[x] {
		return
	}
	defined[x] = true
	if x.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", smtName(x), x.sort())
		onVar(x)
		return
	}
	for _, y := range []*Term{x.a, x.b, x.c} {
		if y != nil {
			defineTerm(w, y, defined, ufs, onVar)
		}
	}
	if x.op == OUF && !ufs[x.name] {
		ufs[x.name] = true
		args := x.a.sort()
		if x.b != nil {
			args += " " + x.b.sort()
		}
		fmt.Fprintf(w, "(declare-fun %s (%s) %s)\n", x.name, args, x.sort())
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", smtName(x), x.sort(), smtBody(x))
}

func (s *Solver) define(x *Term) {
	defineTerm(s.w, x, s.defined, s.ufs, func(v *Term) { s.vars = append(s.vars, v) })
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.w, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n", smtName(pc[k]))
		s.stack = append(s.stack, pc[k])
	}
}

// Check decides pc /\ extra.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, *Model) {
	if extra == s.tt.F {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for attempt := 0; ; attempt++ {
		res, m, err := s.check1(pc, extra)
		if err == nil {
			if res == Unknown {
				res, m = s.fallback(pc, extra)
			}
			switch res {
			case Sat:
				s.SatN++
			case Unsat:
				s.UnsatN++
			default:
				s.UnkN++
			}
			return res, m
		}
		s.Errors = append(s.Errors, err.Error())
		s.Close()
		if attempt == 1 {
			s.UnkN++
			return Unknown, nil
		}
	}
}

func (s *Solver) check1(pc []*Term, extra *Term) (Result, *Model, error) {
	if s.cmd == nil {
		s.start()
	}
	s.sync(pc)
	if extra != nil && extra != s.tt.T {
		s.define(extra)
		fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n(check-sat)\n", smtName(extra))
	} else {
		extra = nil
		fmt.Fprintf(s.w, "(check-sat)\n")
	}
	if err := s.w.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.r.ReadString('\n')
	if err != nil {
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	var res Result
	var m *Model
	switch line {
	case "sat":
		res = Sat
		m, err = s.getModel()
		if err != nil {
			return Unknown, nil, err
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	if extra != nil {
		fmt.Fprintf(s.w, "(pop 1)\n")
	}
	return res, m, nil
}

func (s *Solver) getModel() (*Model, error) {
	m := &Model{vals: map[*Term]uint64{}, memo: map[*Term]uint64{}}
	if len(s.vars) == 0 {
		return m, nil
	}
	const chunk = 200
	for i := 0; i < len(s.vars); i += chunk {
		j := i + chunk
		if j > len(s.vars) {
			j = len(s.vars)
		}
		s.w.WriteString("(get-value (")
		for _, v := range s.vars[i:j] {
			s.w.WriteString(smtName(v))
			s.w.WriteByte(' ')
		}
		s.w.WriteString("))\n")
		if err := s.w.Flush(); err != nil {
			return nil, err
		}
		if err := readValues(s.r, s.vars[i:j], m); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// readValues parses ((|x| #x00) (|y| true) ...)
func readValues(r *bufio.Reader, vars []*Term, m *Model) error {
	depth := 0
	var sb bytes.Buffer
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	r.ReadString('\n')
	str := sb.String()
	if strings.Contains(str, "error") {
		return fmt.Errorf("get-value: %s", str)
	}
	pos := 0
	for _, v := range vars {
		nm := smtName(v)
		k := strings.Index(str[pos:], nm)
		if k < 0 {
			return fmt.Errorf("no value for %s in %s", nm, str)
		}
		pos += k + len(nm)
		e := strings.IndexByte(str[pos:], ')')
		val := strings.TrimSpace(str[pos : pos+e])
		pos += e
		switch {
		case val == "true":
			m.vals[v] = 1
		case val == "false":
			m.vals[v] = 0
		case strings.HasPrefix(val, "#x"):
			u, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return err
			}
			m.vals[v] = u
		case strings.HasPrefix(val, "#b"):
			u, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return err
			}
			m.vals[v] = u
		default:
			return fmt.Errorf("bad value %q", val)
		}
	}
	return nil
}

// script renders pc /\ extra as a stand-alone SMT-LIB problem.
func (s *Solver) script(pc []*Term, extra *Term) (string, []*Term) {
	var sb strings.Builder
	var vars []*Term
	def := map[*Term]bool{}
	ufs := map[string]bool{}
	all := append(append([]*Term{}, pc...), extra)
	for _, x := range all {
		if x == nil {
			continue
		}
		defineTerm(&sb, x, def, ufs, func(v *Term) { vars = append(vars, v) })
	}
	for _, x := range all {
		if x != nil {
			fmt.Fprintf(&sb, "(assert %s)\n", smtName(x))
		}
	}
	logic := "QF_BV"
	if len(ufs) > 0 {
		logic = "QF_UFBV"
	}
	return "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + sb.String(), vars
}

func runSolver(ctx context.Context, bin []string, script string, vars []*Term) (Result, *Model) {
	f, err := os.CreateTemp("", "gosym*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		f.WriteString("(get-value (")
		for _, v := range vars {
			f.WriteString(smtName(v) + " ")
		}
		f.WriteString("))\n")
	}
	f.Close()
	out, _ := exec.CommandContext(ctx, bin[0], append(bin[1:], f.Name())...).Output()
	r := bufio.NewReader(bytes.NewReader(out))
	line, _ := r.ReadString('\n')
	switch strings.TrimSpace(line) {
	case "sat":
		m := &Model{vals: map[*Term]uint64{}, memo: map[*Term]uint64{}}
		if len(vars) > 0 {
			if err := readValues(r, vars, m); err != nil {
				return Unknown, nil
			}
		}
		return Sat, m
	case "unsat":
		return Unsat, nil
	}
	return Unknown, nil
}

// stopAll ends every exploration once a violation is confirmed.
var stopAll, stopNow = context.WithCancel(context.Background())

func (s *Solver) fallback(pc []*Term, extra *Term) (Result, *Model) {
	s.Fallback++
	script, vars := s.script(pc, extra)
	type ans struct {
		r Result
		m *Model
	}
	cands := [][]string{{"z3-new", "-T:60"}, {"z3", "-T:60"}, {"cvc5", "--tlimit=60000", "--produce-models"}, {"cvc5", "--tlimit=60000", "--produce-models", "--solve-bv-as-int=sum"}}
	ch := make(chan ans, len(cands))
	ctx, cancel := context.WithTimeout(stopAll, 60*time.Second)
	defer cancel()
	for _, c := range cands {
		go func(c []string) {
			r, m := runSolver(ctx, c, script, vars)
			ch <- ans{r, m}
		}(c)
	}
	for range cands {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

// CrossCheck re-decides pc /\ extra with a different solver (cvc5).
func (s *Solver) CrossCheck(pc []*Term, extra *Term, want Result) {
	ctx, cancel := context.WithTimeout(stopAll, 60*time.Second)
	defer cancel()
	script, _ := s.script(pc, extra)
	r, _ := runSolver(ctx, []string{"cvc5", "--tlimit=60000"}, script, nil)
	if r == Unknown {
		return
	}
	s.Cross++
	if r != want {
		s.CrossBad++
		s.Errors = append(s.Errors, fmt.Sprintf("solver disagreement: z3 %v, cvc5 %v", want, r))
	}
}
