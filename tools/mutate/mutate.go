// mutate lists, or applies, small faults to the Go files of a package: mutate list DIR FILE... | mutate apply DIR FILE N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	dir := os.Args[2]
	if os.Args[1] == "apply" {
		n, _ := strconv.Atoi(os.Args[4])
		fs, f, ms := muts(filepath.Join(dir, os.Args[3]))
		m := ms[n]
		m.do()
		fmt.Printf("%s:%d: %s\n", os.Args[3], fs.Position(m.pos).Line, m.what)
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(dir, os.Args[3]), b.Bytes(), 0o644)
		return
	}
	for _, name := range os.Args[3:] {
		_, _, ms := muts(filepath.Join(dir, name))
		for i := range ms {
			fmt.Println(name, i)
		}
	}
}

func text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	s := b.String()
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}

func muts(path string) (*token.FileSet, *ast.File, []mut) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, nil, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, what string, do func()) { ms = append(ms, mut{p, what, do}) }
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			i, s := i, s
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.Pos(), "delete "+text(s), func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "delete "+text(s), func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				}
			case *ast.BranchStmt:
				add(s.Pos(), "delete "+text(s), func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			case *ast.IfStmt:
				if x.Init == nil {
					add(s.Pos(), "never "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: x.Cond, Op: token.LAND, Y: ast.NewIdent("false")} })
					add(s.Pos(), "always "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: x.Cond, Op: token.LOR, Y: ast.NewIdent("true")} })
				} else {
					add(s.Pos(), "never "+text(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: x.Cond, Op: token.LAND, Y: ast.NewIdent("false")} })
				}
			}
		}
	}
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.AND: {token.OR}, token.OR: {token.AND},
		token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.MUL: {token.ADD}, token.REM: {token.ADD}, token.XOR: {token.OR},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			// constants and tables
			ast.Inspect(d, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
						old := l.Value
						add(l.Pos(), "table "+old+" -> "+strconv.FormatInt(v+1, 10), func() { l.Value = strconv.FormatInt(v+1, 10) })
					}
				}
				return true
			})
			continue
		}
		if fd.Body == nil || fd.Name.Name == "String" || fd.Name.Name == "Error" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				for _, to := range swap[x.Op] {
					op := x.Op
					add(x.OpPos, fmt.Sprintf("%s with %s for %s", text(x), to, op), func() { x.Op = to })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), "literal "+x.Value+" -> "+strconv.FormatInt(v+1, 10), func() { x.Value = strconv.FormatInt(v+1, 10) })
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					add(x.Pos(), "not "+x.Name, func() {
						if x.Name == "true" {
							x.Name = "false"
						} else {
							x.Name = "true"
						}
					})
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						add(x.Pos(), "return nil for err", func() { id.Name = "nil" })
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Pos(), "drop low of "+text(x), func() { x.Low = nil })
				}
			}
			return true
		})
	}
	return fs, f, ms
}
