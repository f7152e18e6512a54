// mutate FILE: lists small changes of a Go file; mutate FILE N: prints the file with change N (development only).
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(a, b token.Pos, t, what string) {
		ms = append(ms, mut{off(a), off(b), t, fmt.Sprintf("%d: %s", fs.Position(a).Line, what)})
	}
	swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}}
	logs := func(s ast.Stmt) bool {
		e, ok := s.(*ast.ExprStmt)
		if !ok {
			return false
		}
		c, ok := e.X.(*ast.CallExpr)
		if !ok {
			return false
		}
		se, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		x, ok := se.X.(*ast.Ident)
		return ok && (x.Name == "fmt")
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				if !logs(s) {
					add(s.Pos(), s.End(), "", "drop "+text(s))
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "drop "+text(s))
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					add(s.Pos(), s.End(), "break", "continue -> break")
				} else if x.Tok == token.BREAK {
					add(s.Pos(), s.End(), "continue", "break -> continue")
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
			case *ast.ReturnStmt:
				if n := len(x.Results); n > 0 {
					last := x.Results[n-1]
					if c, ok := last.(*ast.CallExpr); ok && (text(c.Fun) == "fmt.Errorf" || text(c.Fun) == "errors.New") {
						add(last.Pos(), last.End(), "nil", "no error "+text(last))
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
					continue
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, text(x)+"  ->  "+t)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.Pos()+1, "", "drop ! of "+text(x))
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				t := map[string]string{"true": "false", "false": "true"}[x.Name]
				add(x.Pos(), x.End(), t, x.Name+" -> "+t)
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				_, ia := a.(*ast.Ident)
				_, ib := b.(*ast.Ident)
				if ia && ib && text(a) != text(b) {
					ms = append(ms, mut{off(a.Pos()), off(b.End()), text(b) + ", " + text(a), fmt.Sprintf("%d: swap arguments of %s", fs.Position(a.Pos()).Line, text(x))})
				}
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range ms {
			w := m.what
			for k, c := range w {
				if c == '\n' {
					w = w[:k] + "…"
					break
				}
			}
			fmt.Printf("%d\t%s\n", i, w)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := ms[n]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.to:])
}
