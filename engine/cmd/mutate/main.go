// mutate lists or applies small source mutations (dev tool): mutate FILE prints the number of mutants and
// their descriptions; mutate FILE K writes mutant K of FILE to standard output.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos   token.Pos
	what  string
	apply func()
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, w string, g func()) { ms = append(ms, mut{p, w, g}) }
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND, token.XOR}, token.XOR: {token.OR}, token.REM: {token.QUO},
	}
	list := func(l []ast.Stmt) {
		for i := range l {
			i := i
			switch s := l[i].(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt:
				add(s.Pos(), "delete statement", func() { l[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() { l[i] = &ast.EmptyStmt{} })
				}
			case *ast.IfStmt:
				add(s.Pos(), "delete if", func() { l[i] = &ast.EmptyStmt{} })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			return false
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "New") {
				if id, ok := s.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "errors" || id.Name == "log") {
					return false
				}
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t, o := t, x.Op
				add(x.OpPos, o.String()+" -> "+t.String(), func() { x.Op = t })
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					for _, d := range []int64{1, -1} {
						if v+d < 0 {
							continue
						}
						d := d
						add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+d), func() { x.Value = strconv.FormatInt(v+d, 10) })
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil {
					r := s + "x"
					if s == "1" {
						r = "0"
					} else if s == "0" {
						r = "1"
					} else if len(s) > 12 {
						return true
					}
					add(x.Pos(), x.Value+" -> "+strconv.Quote(r), func() { x.Value = strconv.Quote(r) })
				}
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.IfStmt:
			add(x.Cond.Pos(), "negate condition", func() {
				x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}}
			})
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					i := i
					add(x.Pos(), "return nil for err", func() { x.Results[i] = ast.NewIdent("nil") })
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "binary" {
				if x.Sel.Name == "LittleEndian" {
					add(x.Pos(), "BigEndian", func() { x.Sel = ast.NewIdent("BigEndian") })
				}
			}
		case *ast.Ident:
			for _, p := range [][2]string{{"uint32", "uint16"}, {"uint16", "uint8"}, {"int32", "int16"}, {"float64", "float32"}} {
				if x.Name == p[0] {
					p := p
					add(x.Pos(), p[0]+" -> "+p[1], func() { x.Name = p[1] })
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d %s %s\n", i, fs.Position(m.pos), m.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	ms[k].apply()
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
