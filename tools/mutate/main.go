// Command mutate lists small changes to a Go file: mutate FILE prints one line
// per change (number, line, description); mutate FILE N writes the N-th changed
// file to standard output.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	beg, end int
	new      string
	what     string
	line     int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var cs []change
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(b, e token.Pos, n, what string) {
		cs = append(cs, change{off(b), off(e), n, what, fs.Position(b).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				if l, ok := n.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
					return true
				}
				for _, o := range ops[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					add(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" + 1")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && len(os.Args) < 0", "")
				cs = cs[:len(cs)-1]
			case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(n.Pos(), n.End(), "", "delete "+text(n))
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN {
					add(n.Pos(), n.End(), "", "delete "+text(n))
				}
				if n.Tok == token.ADD_ASSIGN {
					add(n.TokPos, n.TokPos+2, "-=", "+= -> -=")
					add(n.Pos(), n.End(), "", "delete "+text(n))
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					add(n.Pos(), n.End(), "break", "continue -> break")
				}
				if n.Label == nil && n.Tok == token.BREAK {
					add(n.Pos(), n.End(), "continue", "break -> continue")
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 && text(n.Results[k-1]) == "err" {
					add(n.Results[k-1].Pos(), n.Results[k-1].End(), "nil", "return nil for err")
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, c := range cs {
			fmt.Printf("%d %d %q\n", i, c.line, c.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	c := cs[i]
	fmt.Printf("%s%s%s", src[:c.beg], c.new, src[c.end:])
}
