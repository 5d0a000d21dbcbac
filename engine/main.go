package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// JobResult is what one job's exploration produced.
type JobResult struct {
	Job        Job
	Ran        bool
	Paths      int
	Forks      int
	Steps      int64
	Queries    int
	Sat        int
	Unsat      int
	Unk        int
	Fallback   int
	Cross      int
	CrossBad   int
	SolverT    time.Duration
	Wall       time.Duration
	Viols      []Violation
	Incomplete map[string]int
	Unsupp     map[string]int
	Reached    map[string]int
	Asserts    map[string]int
	AssertsSol int
	Funcs      []string
	Stubs      []string
	Pruned     int
	SchedPts   int
	Samples    []Sample
	Errors     []string
	Missing    string
}

// Sample is one completed path turned into concrete inputs.
type Sample struct {
	Inputs map[string]uint64
	Order  []string
	Words  map[string]uint64
	Reach  []string
	Obs    []string
	Sched  []string
	Steps  int64
}

func (p *Prog) findFunc(pkgdir, name string) *Func {
	path := modPath
	if pkgdir != "" {
		path += "/" + pkgdir
	}
	sp := p.pkgs[path]
	if sp == nil {
		return nil
	}
	f := sp.Func(name)
	if f == nil {
		return nil
	}
	return p.fn(f)
}

// pool shares the paths of unfinished jobs among idle workers.
type pool struct {
	mu     sync.Mutex
	cond   *sync.Cond
	tasks  []task
	active int
	idle   int
}

type task struct {
	i     int
	trace []decision
}

// next gives the next task; false when everything is done.
func (w *pool) next() (task, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for len(w.tasks) == 0 {
		if w.active == 0 {
			w.cond.Broadcast()
			return task{}, false
		}
		w.idle++
		w.cond.Wait()
		w.idle--
	}
	t := w.tasks[0]
	w.tasks = w.tasks[1:]
	w.active++
	return t, true
}

func (w *pool) done() {
	w.mu.Lock()
	w.active--
	w.cond.Broadcast()
	w.mu.Unlock()
}

func (w *pool) offer(i int, trace []decision) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.idle <= len(w.tasks) {
		return false
	}
	w.tasks = append(w.tasks, task{i, trace})
	w.cond.Signal()
	return true
}

// waiting tells whether tasks wait that no worker is free for.
func (w *pool) waiting() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.tasks) > w.idle
}

func (w *pool) add(i int, trace []decision) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.tasks = append(w.tasks, task{i, trace})
	w.cond.Signal()
}

// merge adds the result of a part of the same job.
func (r *JobResult) merge(o *JobResult) {
	r.Paths += o.Paths
	r.Forks += o.Forks
	r.Steps += o.Steps
	r.Queries += o.Queries
	r.Sat += o.Sat
	r.Unsat += o.Unsat
	r.Unk += o.Unk
	r.Fallback += o.Fallback
	r.Cross += o.Cross
	r.CrossBad += o.CrossBad
	r.SolverT += o.SolverT
	r.Viols = append(r.Viols, o.Viols...)
	if len(r.Viols) > 3 {
		r.Viols = r.Viols[:3]
	}
	add := func(a *map[string]int, b map[string]int) {
		if *a == nil {
			*a = map[string]int{}
		}
		for k, v := range b {
			(*a)[k] += v
		}
	}
	add(&r.Incomplete, o.Incomplete)
	add(&r.Unsupp, o.Unsupp)
	add(&r.Reached, o.Reached)
	add(&r.Asserts, o.Asserts)
	r.AssertsSol += o.AssertsSol
	r.Pruned += o.Pruned
	r.SchedPts += o.SchedPts
	r.Funcs = append(r.Funcs, o.Funcs...)
	r.Stubs = append(r.Stubs, o.Stubs...)
	r.Errors = append(r.Errors, o.Errors...)
	if n := len(r.Samples); n > 1 && len(o.Samples) > 0 {
		r.Samples[n-1] = o.Samples[len(o.Samples)-1]
	} else if n == 0 {
		r.Samples = o.Samples
	}
	if r.Missing == "" {
		r.Missing = o.Missing
	}
}

func runJob(p *Prog, j Job, budget time.Duration, trace []decision, w *pool, i int, onViol func(Violation)) (r *JobResult) {
	r = &JobResult{Job: j}
	t0 := time.Now()
	fn := p.findFunc(j.Pkg, j.Fn)
	if fn == nil {
		r.Missing = "harness " + j.Pkg + "." + j.Fn + " does not compile against the current tree"
		return
	}
	ex := NewExec(p, j.Params, j.Fn)
	if j.MaxPaths > 0 {
		ex.maxPaths = j.MaxPaths
	}
	if j.MaxSteps > 0 {
		ex.maxSteps = j.MaxSteps
	}
	if j.ConcCap > 0 {
		ex.concCap = j.ConcCap
	}
	if j.SolverMS > 0 {
		ex.sol.timeout = j.SolverMS
	}
	ex.explore = j.Explore
	ex.checkRace = j.Explore && !j.NoRace
	ex.raceStd = j.RaceStd
	if j.Preempt > 0 {
		ex.maxPreempt = j.Preempt - 1
	}
	ex.crossEvery = 50
	if os.Getenv("GOSYM_PROFILE") != "" {
		ex.profile = map[string]int{}
		defer func() {
			var ns []string
			t := 0
			for n, c := range ex.profile {
				ns = append(ns, n)
				t += c
			}
			sort.Slice(ns, func(i, j int) bool { return ex.profile[ns[i]] > ex.profile[ns[j]] })
			for i, n := range ns {
				if i < 25 {
					fmt.Printf("%5.1f%% %s\n", 100*float64(ex.profile[n])/float64(t), n)
				}
			}
		}()
	}
	if j.Cross != 0 {
		ex.crossEvery = j.Cross
	}
	ex.deadline = time.Now().Add(budget)
	if !j.Explore {
		ex.offer = func(tr []decision) bool { return time.Since(t0) > 2*time.Second && w.offer(i, tr) }
		ex.giveUp = func() bool { return time.Since(t0) > 20*time.Second && w.waiting() }
		ex.give = func(tr []decision) { w.add(i, tr) }
	}
	ex.onViol = onViol
	nsample := 0
	want := 3
	if j.NSample > 0 {
		want = j.NSample
	}
	ex.onPathEnd = func(st *State) {
		if j.NoReplay || st.ending == "panic" || st.ending == "deadlock" || st.ending == "steps" || st.ending == "deadline" {
			return
		}
		// reservoir: first ones and then exponentially spaced ones
		nsample++
		s := nsample
		if len(r.Samples) >= want && s&(s-1) != 0 {
			return
		}
		sm := Sample{Inputs: map[string]uint64{}, Words: map[string]uint64{}, Steps: st.steps, Sched: st.sched}
		for _, in := range st.inputs {
			x := in.V
			if in.T != nil {
				x = st.model.Eval(in.T)
			}
			sm.Inputs[in.Name] = x
			sm.Order = append(sm.Order, in.Name)
		}
		for _, w := range st.words {
			sm.Words[w.word] = st.model.Eval(w.t)
		}
		sm.Reach = append(sm.Reach, st.reach...)
		for _, o := range st.obs {
			v := o.V.n
			if t := o.V.term(); t != nil {
				v = st.model.Eval(t)
			}
			sm.Obs = append(sm.Obs, fmt.Sprintf("%s=%d", o.Name, v))
		}
		if len(r.Samples) >= want {
			// keep the first, replace round-robin
			r.Samples[1+nsample%(want-1+1)%max(1, want-1)] = sm
			return
		}
		r.Samples = append(r.Samples, sm)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Errors = append(r.Errors, fmt.Sprintf("engine failure: %v\n%s", x, debug.Stack()))
			}
		}()
		ex.Run(fn, trace)
	}()
	r.Ran = true
	r.Paths, r.Forks, r.Steps = ex.paths, ex.forks, ex.totalSteps
	r.Queries, r.Sat, r.Unsat, r.Unk, r.Fallback = ex.sol.Queries, ex.sol.SatN, ex.sol.UnsatN, ex.sol.UnkN, ex.sol.Fallback
	r.Cross, r.CrossBad = ex.sol.Cross, ex.sol.CrossBad
	r.SolverT = ex.sol.Time
	r.Viols = ex.viols
	r.Incomplete, r.Unsupp, r.Reached, r.Asserts, r.AssertsSol = ex.incomplete, ex.unsupported, ex.reached, ex.asserts, ex.assertsSolver
	r.Pruned, r.SchedPts = ex.pruned, ex.schedPoints
	r.Errors = append(r.Errors, ex.sol.Errors...)
	for f := range ex.fnHit {
		if f.inRepo {
			r.Funcs = append(r.Funcs, f.name)
		}
	}
	sort.Strings(r.Funcs)
	if debugStack {
		for s, n := range ex.stubs {
			fmt.Println(n, s)
		}
	}
	for s := range ex.stubs {
		r.Stubs = append(r.Stubs, s)
	}
	sort.Strings(r.Stubs)
	r.Wall = time.Since(t0)
	return
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	fn := flag.String("fn", "", "only harnesses whose name contains this")
	par := flag.Int("j", runtime.NumCPU(), "parallel jobs")
	budget := flag.Int("budget", 0, "seconds for exploration")
	noreplay := flag.Bool("noreplay", false, "")
	verbose := flag.Bool("v", false, "")
	prof := flag.String("cpuprofile", "", "")
	extra := flag.String("p", "", "override params k=v,k=v")
	replay := flag.String("replay", "", "re-run one recorded counterexample against the real code")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	c := &Check{verif: *verif, repo: *repo, prop: *prop, tier: *tier, noreplay: *noreplay, verbose: *verbose, par: *par, confirmed: map[string]string{}}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.t0 = time.Now()
	if *replay != "" {
		os.Exit(c.replay(*replay))
	}
	c.budget = 420 * time.Second
	if *tier == "thorough" {
		c.budget = 3 * time.Hour
	}
	if *budget > 0 {
		c.budget = time.Duration(*budget) * time.Second
	}
	for _, j := range Jobs() {
		if *prop != "" && j.Prop != *prop {
			continue
		}
		if *fn != "" && !strings.Contains(j.Fn+": "+j.Bound, *fn) {
			continue
		}
		if j.Tier != "" && j.Tier != *tier && *fn == "" {
			continue
		}
		for _, kv := range strings.Split(*extra, ",") {
			if i := strings.IndexByte(kv, '='); i > 0 {
				v, _ := strconv.ParseInt(kv[i+1:], 0, 64)
				np := map[string]int64{}
				for k, x := range j.Params {
					np[k] = x
				}
				np[kv[:i]] = v
				j.Params = np
			}
		}
		c.jobs = append(c.jobs, j)
	}
	if len(c.jobs) == 0 {
		fmt.Println("no jobs for", *prop, *tier)
		os.Exit(2)
	}
	code := c.run()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type Check struct {
	verif, repo, prop, tier string
	seed                    int
	jobs                    []Job
	budget                  time.Duration
	noreplay, verbose       bool
	par                     int
	t0                      time.Time
	loadT                   time.Duration
	dropped                 []string
	mu                      sync.Mutex
	wg                      sync.WaitGroup
	nearly                  int
	confirmed               map[string]string
}

// replay runs one recorded counterexample natively.
func (c *Check) replay(path string) int {
	path, _ = filepath.Abs(path)
	d, err := os.ReadFile(path)
	var r struct {
		Harness, Pkg, Property string
		Kind, Message          string
		Schedule               []string
	}
	if err == nil {
		err = json.Unmarshal(d, &r)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	p, err := Load(c.verif, c.repo, []string{"./..."})
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	j := Job{Prop: r.Property, Pkg: r.Pkg, Fn: r.Harness}
	for _, k := range Jobs() {
		if k.Fn == r.Harness {
			j.Explore = k.Explore
			j.Fault = k.Fault
		}
	}
	nat := newNative(c.verif, c.repo, []Job{j}, p)
	defer nat.close()
	nat.buildAll()
	ok, out := nat.confirm(j, Violation{Kind: r.Kind, Msg: r.Message, Sched: r.Schedule}, path)
	fmt.Println(out)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	fmt.Println("the real code behaves as required on this input")
	return 0
}

func (c *Check) run() int {
	p, err := Load(c.verif, c.repo, []string{"./..."})
	if err != nil {
		// the tree does not load: nothing can be decided
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	c.loadT = time.Since(c.t0)
	c.dropped = p.loadErrs
	for _, e := range p.loadErrs {
		fmt.Println("note: harness file does not compile against this tree:", e)
	}
	// natively compiled replay binaries, in the background
	nat := newNative(c.verif, c.repo, c.jobs, p)
	if !c.noreplay {
		go nat.buildAll()
	}
	go memWatch()
	deadline := c.t0.Add(c.budget)
	results := make([]*JobResult, len(c.jobs))
	order := make([]int, len(c.jobs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return c.jobs[order[a]].Weight > c.jobs[order[b]].Weight })
	var wg sync.WaitGroup
	var mu sync.Mutex
	w := &pool{}
	w.cond = sync.NewCond(&w.mu)
	for _, i := range order {
		w.tasks = append(w.tasks, task{i, nil})
	}
	started := make([]time.Time, len(c.jobs))
	for k := 0; k < c.par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t, ok := w.next()
				if !ok {
					return
				}
				i := t.i
				mu.Lock()
				if started[i].IsZero() {
					started[i] = time.Now()
				}
				mu.Unlock()
				left := time.Until(deadline)
				j := c.jobs[i]
				if j.Budget > 0 {
					if l := time.Until(started[i].Add(time.Duration(j.Budget) * time.Second)); l < left {
						left = l
					}
				}
				if left < 2*time.Second {
					left = 2 * time.Second
				}
				r := runJob(p, j, left, t.trace, w, i, func(v Violation) { c.early(nat, j, v) })
				mu.Lock()
				if results[i] == nil {
					results[i] = r
				} else {
					results[i].merge(r)
				}
				results[i].Wall = time.Since(started[i])
				if c.verbose {
					r.print()
				}
				mu.Unlock()
				w.done()
			}
		}()
	}
	wg.Wait()
	c.wg.Wait()
	return c.report(results, nat)
}

// early confirms a counterexample while the exploration goes on, and ends the exploration if it is real.
func (c *Check) early(nat *native, j Job, v Violation) {
	if c.noreplay {
		return
	}
	c.mu.Lock()
	c.nearly++
	n := c.nearly
	c.mu.Unlock()
	if n > 20 || matchKnown(loadKnown(c.verif), c.prop, j.Fn, v.Msg) != nil {
		return
	}
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		d, _ := json.Marshal(nat.replayFile(j, v.Inputs, v.Words))
		f := filepath.Join(nat.dir, fmt.Sprintf("early%d.json", n))
		os.WriteFile(f, d, 0644)
		if ok, out := nat.confirm(j, v, f); ok {
			c.mu.Lock()
			c.confirmed[j.Fn+"|"+fmt.Sprint(v.Order, v.Inputs, v.Sched)+v.Msg] = out
			c.mu.Unlock()
			stopNow()
		}
	}()
}

func (r *JobResult) print() {
	fmt.Printf("job %s %v: paths=%d forks=%d steps=%d queries=%d (sat %d unsat %d unk %d fb %d) solver=%.2fs wall=%.2fs pruned=%d sched=%d asserts=%d\n",
		r.Job.Fn, r.Job.Params, r.Paths, r.Forks, r.Steps, r.Queries, r.Sat, r.Unsat, r.Unk, r.Fallback, r.SolverT.Seconds(), r.Wall.Seconds(), r.Pruned, r.SchedPts, r.AssertsSol)
	for k, v := range r.Reached {
		fmt.Printf("   reach %s %d\n", k, v)
	}
	for k, v := range r.Incomplete {
		fmt.Printf("   INCOMPLETE %s: %d\n", k, v)
	}
	for k, v := range r.Unsupp {
		fmt.Printf("   UNSUPPORTED %s: %d\n", k, v)
	}
	for _, v := range r.Viols {
		fmt.Printf("   COUNTEREXAMPLE %s: %s at %s\n", v.Kind, v.Msg, v.Where)
		for _, k := range v.Order {
			fmt.Printf("      %s=%#x", k, v.Inputs[k])
		}
		fmt.Println()
		for w, h := range v.Words {
			fmt.Printf("      %s -> %#x\n", w, h)
		}
		if len(v.Sched) > 0 {
			fmt.Printf("      schedule %v\n", v.Sched)
		}
		fmt.Print(v.Stack)
	}
	for _, e := range r.Errors {
		fmt.Println("   ERROR", e)
	}
	if r.Missing != "" {
		fmt.Println("   MISSING", r.Missing)
	}
}

type knownEntry struct{ prop, fn, msg, text string }

// known-findings.txt: lines "KNOWN property=<id> harness=<fn> assertion=<text> | <description>".
func loadKnown(verif string) []knownEntry {
	d, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(d), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		body, text, _ := strings.Cut(l[6:], "|")
		e := knownEntry{text: strings.TrimSpace(text)}
		if i := strings.Index(body, "assertion="); i >= 0 {
			e.msg = strings.TrimSpace(body[i+10:])
			body = body[:i]
		}
		for _, f := range strings.Fields(body) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				e.prop = v
			}
			if v, ok := strings.CutPrefix(f, "harness="); ok {
				e.fn = v
			}
		}
		out = append(out, e)
	}
	return out
}

func (c *Check) report(results []*JobResult, nat *native) int {
	known := loadKnown(c.verif)
	exit := 0
	violations := 0
	var notes, samples []string
	validated, mismatched, replayed, unconfirmed := 0, 0, 0, 0
	tot := JobResult{Incomplete: map[string]int{}, Unsupp: map[string]int{}}
	funcs := map[string]bool{}
	stubs := map[string]bool{}
	var jobsOut []map[string]any
	exhaustive := true
	var asserts, assertsSol int
	nsolverAll := 0
	knownSeen := map[string]bool{}
	outdir := filepath.Join(c.verif, "out")
	os.MkdirAll(outdir, 0755)
	seenViol := map[string]bool{}
	for _, r := range results {
		tot.Paths += r.Paths
		tot.Forks += r.Forks
		tot.Steps += r.Steps
		tot.Queries += r.Queries
		tot.Sat += r.Sat
		tot.Unsat += r.Unsat
		tot.Unk += r.Unk
		tot.Fallback += r.Fallback
		tot.Cross += r.Cross
		tot.CrossBad += r.CrossBad
		tot.SolverT += r.SolverT
		tot.Pruned += r.Pruned
		tot.SchedPts += r.SchedPts
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, f := range r.Stubs {
			stubs[f] = true
		}
		for _, n := range r.Asserts {
			asserts += n
		}
		assertsSol += r.AssertsSol
		nsolverAll += r.AssertsSol
		jo := map[string]any{"harness": r.Job.Fn, "bounds": r.Job.Bound, "params": r.Job.Params, "paths": r.Paths, "queries": r.Queries, "assertions_evaluated": sum(r.Asserts), "assertions_sent_to_solver": r.AssertsSol, "wall_s": round(r.Wall.Seconds())}
		complete := len(r.Incomplete) == 0 && len(r.Unsupp) == 0 && r.Missing == "" && len(r.Errors) == 0 && len(r.Viols) == 0
		if r.Missing != "" {
			jo["not_run"] = r.Missing
		}
		if len(r.Incomplete) > 0 {
			jo["reduced_bound"] = r.Incomplete
		}
		if len(r.Unsupp) > 0 {
			jo["not_encoded"] = r.Unsupp
		}
		if len(r.Errors) > 0 {
			jo["engine_errors"] = r.Errors
		}
		if len(r.Reached) > 0 {
			jo["reached"] = r.Reached
		}
		for _, w := range r.Job.Must {
			if r.Reached[w] == 0 && r.Missing == "" {
				jo["vacuous"] = "never reached: " + w
				complete = false
				fmt.Printf("note: %s never reached %q\n", r.Job.Fn, w)
			}
		}
		jo["exhaustive_within_bounds"] = complete
		exhaustive = exhaustive && complete
		for k := range r.Incomplete {
			fmt.Printf("note: %s: %s\n", r.Job.Fn, k)
		}
		for k := range r.Unsupp {
			fmt.Printf("note: %s: not encoded: %s\n", r.Job.Fn, k)
		}
		for _, k := range r.Errors {
			fmt.Printf("note: %s: %s\n", r.Job.Fn, k)
		}
		jobsOut = append(jobsOut, jo)
		for vi, v := range r.Viols {
			ke := matchKnown(known, c.prop, r.Job.Fn, v.Msg)
			path := filepath.Join(outdir, fmt.Sprintf("%s-%s-%d.json", r.Job.Prop, r.Job.Fn, vi))
			rp := nat.replayFile(r.Job, v.Inputs, v.Words)
			rp["Kind"], rp["Message"], rp["Where"], rp["Schedule"], rp["Stack"] = v.Kind, v.Msg, v.Where, v.Sched, v.Stack
			rp["HowToRun"] = "GOFLAGS=-mod=mod go test -overlay (see /verif/engine/native.go); or ./check replay <this file>"
			d, _ := json.MarshalIndent(rp, "", " ")
			if c.noreplay {
				fmt.Printf("counterexample (not replayed) %s %s: %s at %s\n", r.Job.Fn, v.Kind, v.Msg, v.Where)
				continue
			}
			os.WriteFile(path, d, 0644)
			out, ok := c.confirmed[r.Job.Fn+"|"+fmt.Sprint(v.Order, v.Inputs, v.Sched)+v.Msg]
			if !ok {
				if len(c.confirmed) > 0 {
					continue // enough is confirmed
				}
				ok, out = nat.confirm(r.Job, v, path)
			}
			replayed++
			if !ok {
				unconfirmed++
				notes = append(notes, fmt.Sprintf("%s: a counterexample to %q was not reproduced by the real code and is not reported: %s", r.Job.Fn, v.Msg, firstLine(out)))
				fmt.Printf("note: unconfirmed counterexample %s: %s (%s)\n", r.Job.Fn, v.Msg, firstLine(out))
				if c.verbose {
					fmt.Println(out)
				}
				continue
			}
			if ke != nil {
				if !knownSeen[ke.text] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, ke.text)
					knownSeen[ke.text] = true
				}
				continue
			}
			violations++
			key := r.Job.Fn + v.Msg
			if !seenViol[key] {
				seenViol[key] = true
				fmt.Printf("counterexample confirmed by the real code: %s (%s) %s\n   at %s\n   native: %s\n", v.Msg, v.Kind, r.Job.Fn, v.Where, firstLine(out))
				for _, k := range v.Order {
					fmt.Printf("   %s=%d", k, v.Inputs[k])
				}
				fmt.Println()
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Job.Prop, path)
			exit = 1
		}
	}
	// push sampled paths through the real code and compare
	if !c.noreplay && exit == 0 {
		type vres struct {
			status string
			out    string
			r      *JobResult
			s      Sample
		}
		var todo []vres
		for _, r := range results {
			for _, s := range r.Samples {
				todo = append(todo, vres{r: r, s: s})
			}
		}
		lim := time.Until(c.t0.Add(c.budget + 60*time.Second))
		stop := time.Now().Add(lim)
		var wg sync.WaitGroup
		sem := make(chan struct{}, c.par)
		for i := range todo {
			wg.Add(1)
			sem <- struct{}{}
			go func(v *vres) {
				defer wg.Done()
				defer func() { <-sem }()
				if time.Now().After(stop) {
					v.status = "skipped"
					return
				}
				v.status, v.out = nat.validate(v.r.Job, v.s)
			}(&todo[i])
		}
		wg.Wait()
		for i, v := range todo {
			switch v.status {
			case "ok":
				validated++
				if len(samples) < 6 {
					samples = append(samples, fmt.Sprintf("%s %v inputs=%v words=%v reached=%v observed=%v", v.r.Job.Fn, v.r.Job.Params, v.s.Inputs, v.s.Words, v.s.Reach, v.s.Obs))
				}
			case "skipped":
			case "fail":
				// the real code breaks an assertion that the engine found to hold on this path
				ke := matchKnown(known, c.prop, v.r.Job.Fn, failMsg(v.out))
				if ke != nil {
					if !knownSeen[ke.text] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, ke.text)
						knownSeen[ke.text] = true
					}
					continue
				}
				path := filepath.Join(outdir, fmt.Sprintf("%s-%s-n%d.json", v.r.Job.Prop, v.r.Job.Fn, i))
				rp := nat.replayFile(v.r.Job, v.s.Inputs, v.s.Words)
				rp["Message"] = failMsg(v.out)
				d, _ := json.MarshalIndent(rp, "", " ")
				os.WriteFile(path, d, 0644)
				st2, _ := nat.validate(v.r.Job, v.s)
				if st2 == "fail" {
					violations++
					fmt.Printf("the real code breaks %q on a path the solver solved: %s\n", failMsg(v.out), v.r.Job.Fn)
					fmt.Printf("VIOLATION property=%s replay=%s\n", v.r.Job.Prop, path)
					exit = 1
				}
			default:
				mismatched++
				notes = append(notes, fmt.Sprintf("%s: real run differs from the symbolic run: %s", v.r.Job.Fn, v.out))
				fmt.Printf("note: validation mismatch %s: %s\n   inputs %v words %v\n", v.r.Job.Fn, v.out, v.s.Inputs, v.s.Words)
			}
		}
	}
	nat.close()
	for k := range knownSeen {
		_ = k
	}
	level := "model_checking"
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level,
		"wall_s":     round(time.Since(c.t0).Seconds()),
		"violations": violations,
		"assumptions": []string{
			"the file system, process, lock, sync and formatting models of /verif/harness/internal/vx stand for the operating system and Go's runtime",
			"counterexamples are reported only after the real code reproduces them; schedules are the engine's sequentially consistent interleavings",
		},
		"coverage": map[string]any{
			"states": tot.Paths, "transitions": tot.Steps, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive,
			"technique":         "symbolic execution of the repository's go/ssa form, path conditions and assertions decided by z3 (bit-vectors); a sample of unsat verdicts re-decided by cvc5",
			"states_meaning":    "paths explored to their end (each covers every input satisfying its path condition); transitions are SSA instructions executed",
			"functions_encoded": keysOf(funcs), "models_used": keysOf(stubs),
			"queries": tot.Queries, "queries_sat": tot.Sat, "queries_unsat": tot.Unsat, "queries_unknown": tot.Unk, "queries_by_portfolio": tot.Fallback,
			"unsat_rechecked_by_cvc5": tot.Cross, "solver_disagreements": tot.CrossBad,
			"solver_time_s": round(tot.SolverT.Seconds()), "load_time_s": round(c.loadT.Seconds()),
			"forks": tot.Forks, "schedule_states_pruned": tot.Pruned, "schedule_decisions": tot.SchedPts,
			"assertions_evaluated": asserts, "assertions_sent_to_solver": assertsSol,
			"jobs": jobsOut, "counterexamples_replayed": replayed, "counterexamples_unconfirmed": unconfirmed,
			"validation_mismatches": mismatched, "notes": notes, "harness_files_dropped": c.dropped,
		},
	}
	if len(samples) == 0 {
		for _, r := range results {
			for _, s := range r.Samples {
				if len(samples) < 4 {
					samples = append(samples, fmt.Sprintf("%s inputs=%v words=%v reached=%v", r.Job.Fn, s.Inputs, s.Words, s.Reach))
				}
			}
		}
		ev["coverage"].(map[string]any)["samples"] = samples
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	d, _ := json.MarshalIndent(ev, "", " ")
	if c.prop != "" && !c.noreplay {
		os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(d, '\n'), 0644)
	}
	fmt.Printf("%s %s: %d jobs, %d paths, %d queries (%d unsat), %d assertions (%d by solver), solver %.1fs, validated %d, mismatched %d, exhaustive=%v, %.1fs\n", c.prop, c.tier, len(results), tot.Paths, tot.Queries, tot.Unsat, asserts, assertsSol, tot.SolverT.Seconds(), validated, mismatched, exhaustive, time.Since(c.t0).Seconds())
	return exit
}

func matchKnown(k []knownEntry, prop, fn, msg string) *knownEntry {
	for i := range k {
		if k[i].prop == prop && k[i].fn == fn && k[i].msg != "" && strings.Contains(msg, k[i].msg) {
			return &k[i]
		}
	}
	return nil
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// memStop ends every exploration, as a deadline does, before the machine runs
// out of memory.
var memStop atomic.Bool

func memWatch() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(300 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Uint64() > 16<<30 && !memStop.Swap(true) {
			fmt.Println("note: stopped at the memory limit")
		}
	}
}
