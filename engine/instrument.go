package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument returns copies of the repository's concurrent source files with
// a random pause before every statement that synchronises, for replaying
// schedules natively.
func instrument(repo string) map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vx") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if b := perturb(src); b != nil {
			out[p] = b
		}
		return nil
	})
	return out
}

func perturb(src []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if synchronises(s) {
				if l, ok := s.(*ast.LabeledStmt); ok {
					s = l.Stmt
				}
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			if l, ok := n.Call.Fun.(*ast.FuncLit); ok && len(l.Body.List) > 0 {
				at = append(at, fs.Position(l.Body.List[0].Pos()).Offset)
			}
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	sort.Ints(at)
	var b []byte
	name := fs.Position(f.Name.End()).Offset
	b = append(b, src[:name]...)
	b = append(b, "; import vxperturb \""+vxPath+"\""...)
	last := name
	for i, o := range at {
		if i > 0 && at[i-1] == o {
			continue
		}
		b = append(b, src[last:o]...)
		b = append(b, "vxperturb.Perturb(); "...)
		last = o
	}
	return append(b, src[last:]...)
}

// synchronises reports whether s, without the statements nested in it, uses
// a channel or a synchronisation method.
func synchronises(s ast.Stmt) bool {
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	if _, ok := s.(*ast.DeferStmt); ok {
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.RangeStmt:
			found = found || n.Key != nil && n.Value == nil
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.SelectorExpr:
				switch f.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Signal", "Broadcast", "Done", "Add", "Do":
					found = true
				}
			case *ast.Ident:
				found = found || f.Name == "close"
			}
		}
		return true
	})
	return found
}
