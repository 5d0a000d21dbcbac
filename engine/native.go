package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// native builds the harnesses with the ordinary compiler and replays assignments against the real code.
type native struct {
	verif, repo string
	dir         string
	pkgs        map[string][]string // pkg dir -> harness functions
	race        map[string]bool
	fault       map[string]bool
	prog        *Prog
	mu          sync.Mutex
	built       map[string]chan struct{}
	errs        map[string]string
	pre         map[uint64][]string
	preMu       sync.Mutex
	n           int
}

func newNative(verif, repo string, jobs []Job, p *Prog) *native {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	n := &native{verif: verif, repo: repo, dir: d, pkgs: map[string][]string{}, race: map[string]bool{}, fault: map[string]bool{}, prog: p, built: map[string]chan struct{}{}, errs: map[string]string{}, pre: map[uint64][]string{}}
	for _, j := range jobs {
		if p.findFunc(j.Pkg, j.Fn) == nil {
			continue
		}
		found := false
		for _, f := range n.pkgs[j.Pkg] {
			if f == j.Fn {
				found = true
			}
		}
		if !found {
			n.pkgs[j.Pkg] = append(n.pkgs[j.Pkg], j.Fn)
		}
		if j.Explore {
			n.race[j.Pkg] = true
		}
		if j.Fault {
			n.fault[j.Pkg] = true
		}
	}
	for k := range n.pkgs {
		n.built[k] = make(chan struct{})
		if n.race[k] {
			n.built[k+"#race"] = make(chan struct{})
		}
		if n.fault[k] {
			n.built[k+"#fault"] = make(chan struct{})
		}
	}
	return n
}

func (n *native) close() { os.RemoveAll(n.dir) }

func binName(pkg string) string {
	if pkg == "" {
		pkg = "_root"
	}
	return strings.NewReplacer("/", "_", "#", "_").Replace(pkg) + ".test"
}

func (n *native) buildAll() {
	for k := range n.pkgs {
		n.build(k, "")
		close(n.built[k])
		if n.race[k] {
			n.build(k, "race")
			close(n.built[k+"#race"])
		}
		if n.fault[k] {
			n.build(k, "fault")
			close(n.built[k+"#fault"])
		}
	}
}

func (n *native) build(pkg, kind string) {
	skip := map[string]bool{}
	for _, e := range n.prog.loadErrs {
		if i := strings.Index(e, ": "); i > 0 {
			skip[e[:i]] = true
		}
	}
	ov, err := buildOverlay(n.verif, n.repo, skip)
	if err != nil {
		n.errs[pkg] = err.Error()
		return
	}
	rep := map[string]string{}
	src := filepath.Join(n.dir, "src")
	k := 0
	key := pkg
	if kind != "" {
		key += "#" + kind
	}
	if kind == "fault" {
		hook, err := faultHook(n.repo)
		if err != nil {
			n.mu.Lock()
			n.errs[key] = err.Error()
			n.mu.Unlock()
			fmt.Println("note:", err)
			return
		}
		for f, b := range hook {
			ov[f] = b
		}
	}
	if kind == "race" {
		for f, b := range instrument(n.repo) {
			ov[f] = b
		}
	}
	pkgName := filepath.Base(pkg)
	if pkg == "" {
		pkgName = "dupi"
	}
	if sp := n.prog.pkgs[strings.TrimSuffix(modPath+"/"+pkg, "/")]; sp != nil {
		pkgName = sp.Pkg.Name()
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n", pkgName, vxPath)
	for _, f := range n.pkgs[pkg] {
		fmt.Fprintf(&sb, "\tfor _, m := range vx.Run(%q, %s) {\n\t\tt.Errorf(\"ASSERTION %%s\", m)\n\t}\n", f, f)
	}
	sb.WriteString("}\n")
	if n.prog.findFunc(pkg, "verifCLIMain") != nil {
		sb.WriteString("\nfunc TestVerifCLI(t *testing.T) { vx.CLIMain(verifCLIMain) }\n")
	}
	ov[filepath.Join(n.repo, pkg, "zz_verif_replay_test.go")] = []byte(sb.String())
	for dst, b := range ov {
		d := filepath.Join(src, "k"+kind, binName(pkg), fmt.Sprint(k))
		k++
		os.MkdirAll(d, 0755)
		f := filepath.Join(d, filepath.Base(dst))
		os.WriteFile(f, b, 0644)
		rep[dst] = f
	}
	oj, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(n.dir, fmt.Sprintf("ov-%s-%s.json", kind, binName(pkg)))
	os.WriteFile(of, oj, 0644)
	args := []string{"test", "-vet=off", "-overlay", of, "-c", "-o", filepath.Join(n.dir, binName(key))}
	if kind == "race" {
		args = []string{"test", "-vet=off", "-race", "-overlay", of, "-c", "-o", filepath.Join(n.dir, binName(key))}
	}
	args = append(args, "./"+pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	if kind == "race" {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.mu.Lock()
		n.errs[key] = fmt.Sprintf("native build of %s: %v: %s", key, err, out)
		n.mu.Unlock()
		fmt.Println("note:", n.errs[key])
	}
}

func (n *native) replayFile(j Job, inputs, words map[string]uint64) map[string]any {
	pw := map[string]string{}
	used := map[string]bool{}
	var ks []string
	for w := range words {
		ks = append(ks, w)
	}
	sort.Strings(ks)
	for _, w := range ks {
		for _, c := range n.preimages(uint32(words[w])) {
			if !used[c] {
				used[c] = true
				pw[w] = c
				break
			}
		}
	}
	return map[string]any{"Harness": j.Fn, "Pkg": j.Pkg, "Params": j.Params, "Inputs": inputs, "Words": pw, "Property": j.Prop}
}

// preimages gives lower-case words whose FNV-1 hash is h.
func (n *native) preimages(h uint32) []string {
	n.preMu.Lock()
	defer n.preMu.Unlock()
	if r, ok := n.pre[uint64(h)]; ok {
		return r
	}
	const prime = 16777619
	inv := uint32(1) // inverse of prime mod 2^32
	for i := 0; i < 5; i++ {
		inv *= 2 - prime*inv
	}
	if fwd == nil {
		fwd = map[uint32]uint32{}
		for i := uint32(0); i < 26*26*26*26; i++ {
			x := uint32(2166136261)
			k := i
			for c := 0; c < 4; c++ {
				x = x*prime ^ uint32('a'+k%26)
				k /= 26
			}
			fwd[x] = i
		}
	}
	var out []string
	for i := uint32(0); i < 26*26*26*26 && len(out) < 40; i++ {
		x := h
		k := i
		var suf [4]byte
		for c := 0; c < 4; c++ {
			b := byte('a' + k%26)
			suf[3-c] = b
			x = (x ^ uint32(b)) * inv
			k /= 26
		}
		if p, ok := fwd[x]; ok {
			var pre [4]byte
			for c := 0; c < 4; c++ {
				pre[c] = byte('a' + p%26)
				p /= 26
			}
			out = append(out, string(pre[:])+string(suf[:]))
		}
	}
	n.pre[uint64(h)] = out
	return out
}

var fwd map[uint32]uint32

func (n *native) wait(key string) string {
	c := n.built[key]
	if c == nil {
		return "not built"
	}
	<-c
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.errs[key]
}

func (n *native) exec(key, replay string, timeout time.Duration, env ...string) (string, bool) {
	if e := n.wait(key); e != "" {
		return "BUILD " + e, false
	}
	n.mu.Lock()
	n.n++
	id := n.n
	n.mu.Unlock()
	wd := filepath.Join(n.dir, fmt.Sprintf("run%d", id))
	os.MkdirAll(filepath.Join(wd, "home"), 0777)
	os.Chmod(n.dir, 0755)
	os.Chmod(wd, 0777)
	defer os.RemoveAll(wd)
	ctx, cancel := context.WithTimeout(context.Background(), timeout+20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(n.dir, binName(key)), "-test.run=^TestVerifReplay$", "-test.v", fmt.Sprintf("-test.timeout=%ds", int(timeout.Seconds())+15))
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+replay, "HOME="+filepath.Join(wd, "home"), "TMPDIR="+wd, "VERIF_TIMEOUT="+timeout.String(), "DUPIROOT=")
	cmd.Env = append(cmd.Env, env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Start()
	if err == nil {
		done := make(chan bool)
		go memGuard(cmd.Process.Pid, done)
		err = cmd.Wait()
		close(done)
		if ee, ok := err.(*exec.ExitError); ok && ctx.Err() == nil && ee.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL {
			b.WriteString("\nfatal error: out of memory\n")
		}
	}
	return b.String(), err == nil
}

// memGuard ends a native run that takes too much memory (a broken tree may
// allocate what it read from a torn record).
func memGuard(pid int, done chan bool) {
	for {
		select {
		case <-done:
			return
		case <-time.After(10 * time.Millisecond):
		}
		d, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
		if err != nil {
			return
		}
		var size, rss int64
		fmt.Sscan(string(d), &size, &rss)
		if rss*int64(os.Getpagesize()) > 2<<30 {
			syscall.Kill(pid, syscall.SIGKILL)
			return
		}
	}
}

func failMsg(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "ASSERTION "); i >= 0 {
			return l[i+10:]
		}
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") {
			return l
		}
	}
	return ""
}

// confirm replays a counterexample; true if the real code misbehaves too.
func (n *native) confirm(j Job, v Violation, path string) (bool, string) {
	if j.Explore {
		return n.confirmSched(j, v, path)
	}
	out, ok := n.exec(j.key(), path, 30*time.Second)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println(out)
	}
	if ok || strings.HasPrefix(out, "BUILD ") {
		return false, out
	}
	m := failMsg(out)
	if m == "" || strings.Contains(m, "panic: vx:") {
		return false, out
	}
	return true, m
}

func (n *native) confirmSched(j Job, v Violation, path string) (bool, string) {
	type result struct {
		out string
		ok  bool
	}
	last := ""
	stop := time.Now().Add(100 * time.Second)
	for i := 0; i < 96 && time.Now().Before(stop); i += 6 {
		ch := make(chan result)
		for k := i; k < i+6; k++ {
			go func(k int) {
				out, ok := n.exec(j.Pkg+"#race", path, 10*time.Second, fmt.Sprintf("VERIF_SCHEDSEED=%d", k+1), "GORACE=halt_on_error=1")
				ch <- result{out, ok}
			}(k)
		}
		hit := ""
		for k := 0; k < 6; k++ {
			r := <-ch
			last = r.out
			if m := failMsg(r.out); !r.ok && m != "" && !strings.HasPrefix(r.out, "BUILD ") {
				hit = m
			}
		}
		if hit != "" {
			return true, hit
		}
		if strings.HasPrefix(last, "BUILD ") {
			break
		}
	}
	return false, last
}

// validate replays a completed path: "ok", "fail" (an assertion fails natively), or a mismatch.
func (n *native) validate(j Job, s Sample) (string, string) {
	rp := n.replayFile(j, s.Inputs, s.Words)
	d, _ := json.Marshal(rp)
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.dir, fmt.Sprintf("val%d.json", n.n))
	n.mu.Unlock()
	os.WriteFile(f, d, 0644)
	out, ok := n.exec(j.key(), f, 30*time.Second)
	if strings.HasPrefix(out, "BUILD ") {
		return "mismatch", out
	}
	if !ok {
		if m := failMsg(out); m != "" && !strings.Contains(m, "panic: vx:") {
			return "fail", out
		}
		return "mismatch", "native run failed: " + out
	}
	var reach, obs []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "REACH ") {
			reach = append(reach, l[6:])
		}
		if strings.HasPrefix(l, "OBS ") {
			obs = append(obs, l[4:])
		}
	}
	if strings.Join(reach, ",") != strings.Join(s.Reach, ",") {
		return "mismatch", fmt.Sprintf("reached %v natively, %v symbolically", reach, s.Reach)
	}
	if strings.Join(obs, ",") != strings.Join(s.Obs, ",") {
		return "mismatch", fmt.Sprintf("observed %v natively, %v symbolically", obs, s.Obs)
	}
	return "ok", ""
}

// key names the native build that replays a job.
func (j *Job) key() string {
	if j.Fault {
		return j.Pkg + "#fault"
	}
	return j.Pkg
}
