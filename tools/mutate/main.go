// mutate lists or applies small source mutations of a Go file, for measuring what the checks detect.
//
//	mutate FILE            list "index line kind old => new"
//	mutate FILE INDEX OUT  write the mutated file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	text     string
	kind     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(kind string, from, to token.Pos, text string) {
		ms = append(ms, mut{off(from), off(to), text, kind})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	rel := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			// package-level values
			ast.Inspect(d, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
					add("const", l.Pos(), l.End(), "("+l.Value+"+1)")
				}
				return true
			})
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, r := range rel[n.Op] {
					add("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add("not", n.OpPos, n.OpPos+1, "")
				}
				if n.Op == token.SUB {
					add("neg", n.OpPos, n.OpPos+1, "")
				}
			case *ast.IfStmt:
				add("if-true", n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
				add("if-false", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						add("no-else", b.Lbrace, b.End(), "{}")
					}
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					add("for-never", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					add("const", n.Pos(), n.End(), "("+n.Value+"+1)")
					if n.Value != "0" {
						add("const", n.Pos(), n.End(), "("+n.Value+"-1)")
					}
				case token.CHAR:
					add("char", n.Pos(), n.End(), "("+n.Value+"+1)")
				case token.STRING:
					if len(n.Value) > 2 {
						add("str", n.Pos(), n.End(), n.Value[:1]+"~"+n.Value[1:])
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add("bool", n.Pos(), n.End(), "false")
				}
				if n.Name == "false" {
					add("bool", n.Pos(), n.End(), "true")
				}
			case *ast.ExprStmt:
				add("del", n.Pos(), n.End(), "")
			case *ast.DeferStmt:
				add("del-defer", n.Pos(), n.End(), "")
				add("undefer", n.Pos(), n.Call.Pos(), "")
			case *ast.GoStmt:
				add("ungo", n.Pos(), n.Call.Pos(), "")
			case *ast.IncDecStmt:
				add("del", n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					blank := []string{}
					for range n.Lhs {
						blank = append(blank, "_")
					}
					if n.Tok == token.ASSIGN {
						add("del", n.Pos(), n.End(), "")
						add("blank", n.Lhs[0].Pos(), n.Lhs[len(n.Lhs)-1].End(), strings.Join(blank, ","))
					} else {
						add("del", n.Pos(), n.End(), "")
						add("plain", n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), "=")
					}
				}
			case *ast.SendStmt:
				add("del", n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				switch n.Tok {
				case token.BREAK:
					add("branch", n.Pos(), n.Pos()+5, "continue")
				case token.CONTINUE:
					add("branch", n.Pos(), n.Pos()+8, "break")
				}
				add("del", n.Pos(), n.End(), "")
			case *ast.ReturnStmt:
				if len(n.Results) == 0 {
					add("del", n.Pos(), n.End(), "")
				}
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err") {
						add("ret-nil", r.Pos(), r.End(), "nil")
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					add("no-case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add("slice", n.Low.Pos(), n.Low.End(), "")
				}
				if n.High != nil && n.Max == nil {
					add("slice", n.High.Pos(), n.High.End(), "")
				}
			case *ast.CallExpr:
				// two arguments swapped
				if len(n.Args) >= 2 && n.Ellipsis == 0 {
					add("swap", n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]))
				}
			}
			return true
		})
	}
	if len(os.Args) != 2 && len(os.Args) != 4 {
		panic("mutate FILE [INDEX OUT]")
	}
	if _, err := strconv.Atoi(append(os.Args, "", "0")[2]); len(os.Args) == 4 && err != nil {
		panic(err)
	}
	if len(os.Args) == 2 {
		for i, m := range ms {
			one := func(s string) string {
				s = strings.Join(strings.Fields(s), " ")
				if len(s) > 70 {
					s = s[:70] + "…"
				}
				return s
			}
			fmt.Printf("%d\t%d\t%s\t%s => %s\n", i, strings.Count(string(src[:m.from]), "\n")+1, m.kind, one(string(src[m.from:m.to])), one(m.text))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := ms[i]
	out := string(src[:m.from]) + m.text + string(src[m.to:])
	if err := os.WriteFile(os.Args[3], []byte(out), 0o644); err != nil {
		panic(err)
	}
}
