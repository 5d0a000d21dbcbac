package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A command run by a harness starts as a process of its own: the package
// variables of the repository are set to zero and its initialisers run again,
// and when it ends its goroutines end with it.
func init() {
	intrinsics[vxPath+".procStart"] = func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		var todo []*Frame
		me := len(th.frames)
		for _, sp := range ex.p.pkgsOf(a[0]) {
			ms := make([]string, 0, len(sp.Members))
			for m := range sp.Members {
				ms = append(ms, m)
			}
			sort.Strings(ms)
			for _, m := range ms {
				g, ok := sp.Members[m].(*ssa.Global)
				if !ok || strings.Contains(ex.p.fset.Position(g.Pos()).Filename, "zz_verif_") {
					continue
				}
				id := ex.p.globals[g]
				for i := 0; i < ex.p.layout(g.Type().(*types.Pointer).Elem()).slots; i++ {
					st.storeSlot(id, i, Value{})
				}
			}
			f := ex.pushCall(st, th, ex.p.fn(sp.Func("init")), nil, nil, noReg)
			f.ip = -1 // returning from the one above advances it
			todo = append(todo, f)
		}
		if len(todo) == 0 {
			return Value{}, cNext
		}
		// the first package runs first
		for i := range todo {
			th.frames[me+i] = todo[len(todo)-1-i]
		}
		todo[0].ip = 0
		return Value{}, cCall
	}
	intrinsics[vxPath+".procThreads"] = func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		return intV(uint64(len(st.threads))), cNext
	}
	intrinsics[vxPath+".procEnd"] = func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		for i := int(a[0].n); i < len(st.threads); i++ {
			if t := st.threads[i]; t != th {
				t.done = true
				t.frames = nil
				t.wait = wNone
			}
		}
		return Value{}, cNext
	}
	intrinsics[vxPath+".Soon"] = func(ex *Exec, st *State, th *Thread, c *callCtx, a []Value) (Value, ctl) {
		st.stepCap = 0
		if n := int64(a[0].n); n > 0 {
			st.stepCap = st.steps + n
		}
		return Value{}, cNext
	}
	intrinsics["github.com/google/gops/agent.Listen"] = nop
}

// pkgsOf gives the packages to initialise for a program whose main function
// is in the package of the given function, in order.
func (p *Prog) pkgsOf(fv Value) (out []*ssa.Package) {
	f, ok := fv.p.(*FuncV)
	if !ok || f.fn == nil || f.fn.fn.Pkg == nil {
		return nil
	}
	done := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if done[t] || t.Path() == vxPath || !strings.HasPrefix(t.Path(), modPath) && t.Path() != "flag" {
			return
		}
		done[t] = true
		for _, im := range t.Imports() {
			visit(im)
		}
		if sp := p.ssa.Package(t); sp != nil && sp.Func("init") != nil {
			out = append(out, sp)
		}
	}
	visit(f.fn.fn.Pkg.Pkg)
	return
}
