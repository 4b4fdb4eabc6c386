// gomut list FILE        print the mutants of a Go file: number, line, description
// gomut make FILE N      print the file with mutant N applied
// Development tool: looks for changes that neither the tests nor the checks notice.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	line int
	desc string
	do   func()
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[2], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mut{fset.Position(p).Line, d, do}) }
	swaps := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	}
	asg := map[token.Token]token.Token{token.ADD_ASSIGN: token.SUB_ASSIGN, token.SUB_ASSIGN: token.ADD_ASSIGN, token.OR_ASSIGN: token.ASSIGN, token.XOR_ASSIGN: token.ASSIGN, token.AND_ASSIGN: token.ASSIGN}
	var list func(l []ast.Stmt)
	list = func(l []ast.Stmt) {
		for i, s := range l {
			i, s := i, s
			switch v := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.Pos(), "delete statement", func() { l[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if v.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() { l[i] = &ast.EmptyStmt{} })
				}
			case *ast.BranchStmt:
				add(s.Pos(), "delete "+v.Tok.String(), func() { l[i] = &ast.EmptyStmt{} })
			case *ast.RangeStmt:
				add(s.Pos(), "loop leaves out the last", func() {
					if v.Value == nil {
						v.X = &ast.SliceExpr{X: v.X, Low: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					} else {
						v.X = &ast.SliceExpr{X: v.X, High: &ast.BinaryExpr{X: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{v.X}}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
					}
				})
			}
		}
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CompositeLit: // tables are checked elsewhere
			if len(v.Elts) > 8 {
				return false
			}
		case *ast.FuncDecl:
			if v.Body == nil {
				return false
			}
		case *ast.BlockStmt:
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.BinaryExpr:
			op := v.Op
			for _, t := range swaps[op] {
				t := t
				add(v.OpPos, op.String()+" -> "+t.String(), func() { v.Op = t })
			}
		case *ast.AssignStmt:
			if t, ok := asg[v.Tok]; ok {
				add(v.TokPos, v.Tok.String()+" -> "+t.String(), func() { v.Tok = t })
			}
		case *ast.IfStmt:
			add(v.If, "condition false", func() {
				v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
			add(v.If, "condition true", func() {
				v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
		case *ast.SliceExpr:
			if v.Low != nil {
				add(v.Pos(), "no lower bound", func() { v.Low = nil })
			}
			if v.High != nil && !v.Slice3 {
				add(v.Pos(), "no upper bound", func() { v.High = nil })
			}
		case *ast.BasicLit:
			if v.Kind == token.INT && !skip[v] {
				if x, err := strconv.ParseUint(v.Value, 0, 64); err == nil {
					add(v.Pos(), v.Value+" +1", func() { v.Value = strconv.FormatUint(x+1, 10) })
					if x > 0 {
						add(v.Pos(), v.Value+" -1", func() { v.Value = strconv.FormatUint(x-1, 10) })
					}
				}
			}
		case *ast.Ident:
			switch v.Name {
			case "true":
				add(v.Pos(), "true -> false", func() { v.Name = "false" })
			case "false":
				add(v.Pos(), "false -> true", func() { v.Name = "true" })
			}
		case *ast.CallExpr:
			if len(v.Args) >= 2 {
				for i := 0; i+1 < len(v.Args); i++ {
					i := i
					add(v.Args[i].Pos(), fmt.Sprintf("swap arguments %d and %d", i, i+1), func() { v.Args[i], v.Args[i+1] = v.Args[i+1], v.Args[i] })
				}
			}
		}
		return true
	})
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, m.desc)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	ms[n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
