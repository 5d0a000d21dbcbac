package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-air/dupi"
const vxPath = modPath + "/internal/vx"

type Prog struct {
	ssa     *ssa.Program
	pkgs    map[string]*ssa.Package
	fset    *token.FileSet
	layouts sync.Map
	funcs   sync.Map // *ssa.Function -> *Func
	globals map[*ssa.Global]uint32
	base    *State
	repo    string
	sizes   types.Sizes

	redirect  map[string]*ssa.Function // full name -> model in vx
	typCache  sync.Map
	repoFns   sync.Map // functions of the repo that were executed
	methCache sync.Map
	implCache sync.Map
	loadErrs  []string
}

// Overlay files: virtual path -> content
type Overlay map[string][]byte

// buildOverlay maps /verif/harness/<pkgdir>/*.go onto the repo's packages.
// dir "_root" is the module root package.
func buildOverlay(verif, repo string, skip map[string]bool) (Overlay, error) {
	ov := Overlay{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if skip[rel] {
			return nil
		}
		parts := strings.Split(rel, string(filepath.Separator))
		if parts[0] == "_root" {
			parts = parts[1:]
		}
		d, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		name := "zz_verif_" + parts[len(parts)-1]
		dst := filepath.Join(append(append([]string{repo}, parts[:len(parts)-1]...), name)...)
		ov[dst] = d
		return nil
	})
	return ov, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// Load loads the repository with the overlay. Harness files that do not
// compile are dropped (and reported), so that the others can still run.
func Load(verif, repo string, patterns []string) (*Prog, error) {
	skip := map[string]bool{}
	var dropped []string
	for try := 0; try < 6; try++ {
		ov, err := buildOverlay(verif, repo, skip)
		if err != nil {
			return nil, err
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov}
		ps, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if strings.Contains(e.Pos, "zz_verif_") {
					file := e.Pos
					if i := strings.IndexByte(file, ':'); i >= 0 {
						file = file[:i]
					}
					rel, _ := filepath.Rel(repo, file)
					dir := filepath.Dir(rel)
					if dir == "." {
						dir = "_root"
					}
					bad[filepath.Join(dir, strings.TrimPrefix(filepath.Base(rel), "zz_verif_"))] = e.Error()
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 {
			for k, e := range bad {
				skip[k] = true
				dropped = append(dropped, k+": "+e)
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("repository does not load: %s", strings.Join(other, "; "))
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		p := &Prog{ssa: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]uint32{}, repo: repo, redirect: map[string]*ssa.Function{}, loadErrs: dropped}
		for _, sp := range prog.AllPackages() {
			p.pkgs[sp.Pkg.Path()] = sp
		}
		p.setupRedirects()
		return p, p.initBase()
	}
	return nil, fmt.Errorf("harness files do not compile: %v", dropped)
}

// Redirects: vx declares  var Redirects = "os.OpenFile=OsOpenFile ..." as
// exported constants; each maps a real function to a model written in Go.
func (p *Prog) setupRedirects() {
	vx := p.pkgs[vxPath]
	if vx == nil {
		return
	}
	c, ok := vx.Members["Redirects"].(*ssa.NamedConst)
	if !ok {
		return
	}
	for _, f := range strings.Fields(constant.StringVal(c.Value.Value)) {
		kv := strings.SplitN(f, "=", 2)
		fn := vx.Func(kv[1])
		if fn == nil {
			panic("no model " + kv[1])
		}
		p.redirect[kv[0]] = fn
	}
}

// packages whose initialisers are executed; others keep zero globals unless set by initBase.
var initPkgs = map[string]bool{
	"io": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strconv": true, "internal/strconv": true, "bytes": true, "strings": true, "bufio": true,
	"encoding/binary": true, "sort": true, "slices": true, "math": true, "math/bits": true, "path": true, "path/filepath": true, "internal/filepathlite": true, "hash": true, "hash/fnv": true, "io/fs": true,
	"internal/oserror": true, "syscall": false, "flag": true, "container/list": true, "container/heap": true, "hash/crc32": false, "cmp": true, "maps": true, "context": false,
	"internal/bytealg": false, "internal/byteorder": true, "internal/stringslite": true, "internal/errors": true, "internal/bisect": false, "iter": true, "io/ioutil": true,
}

func (p *Prog) initBase() error {
	st := &State{tok: &tokenT{}, prog: p}
	p.base = st
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sp := p.pkgs[n]
		var ms []string
		for m := range sp.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if g, ok := sp.Members[m].(*ssa.Global); ok {
				p.globals[g] = st.allocType(p, g.Type().(*types.Pointer).Elem())
			}
		}
	}
	ex := NewExec(p, nil, "init")
	ex.initMode = true
	p.presetGlobals(ex, st)
	done := map[string]bool{}
	var order []*ssa.Package
	var visit func(sp *ssa.Package)
	visit = func(sp *ssa.Package) {
		if done[sp.Pkg.Path()] {
			return
		}
		done[sp.Pkg.Path()] = true
		for _, im := range sp.Pkg.Imports() {
			if q := p.ssa.Package(im); q != nil {
				visit(q)
			}
		}
		order = append(order, sp)
	}
	for _, n := range names {
		visit(p.pkgs[n])
	}
	for _, sp := range order {
		path := sp.Pkg.Path()
		if !initPkgs[path] && !strings.HasPrefix(path, modPath) {
			continue
		}
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		if err := ex.runInit(st, p.fn(fn)); err != nil {
			p.loadErrs = append(p.loadErrs, fmt.Sprintf("init of %s: %v", path, err))
		}
	}
	// freeze
	st.tok = &tokenT{}
	return nil
}

// presetGlobals gives values to globals of packages whose init is not executed.
func (p *Prog) presetGlobals(ex *Exec, st *State) {
	fsp := p.pkgs["io/fs"]
	_ = fsp
}

type tokenT struct{ _ int }

func (p *Prog) global(pkg, name string) (uint32, bool) {
	sp := p.pkgs[pkg]
	if sp == nil {
		return 0, false
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return 0, false
	}
	return p.globals[g], true
}

func (p *Prog) typ(pkg, name string) types.Type {
	key := pkg + "." + name
	if t, ok := p.typCache.Load(key); ok {
		return t.(types.Type)
	}
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	p.typCache.Store(key, t.Type())
	return t.Type()
}

func (p *Prog) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	ps := i.Pos()
	if !ps.IsValid() {
		if i.Parent() != nil {
			return i.Parent().String()
		}
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
