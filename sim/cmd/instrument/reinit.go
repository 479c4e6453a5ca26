package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// Package state. So that a run can start like a freshly started process, every package gets code that puts its
// variables back to what they were before main: each variable is assigned its initial value again, in the order
// the language prescribes, and then the package's init functions run.

type reItem struct {
	rel   string
	text  string // the assignment
	names []string
	expr  ast.Expr // nil: no initial value
	order int
	state int
}

type rePkg struct {
	items []*reItem
	vars  map[string]*reItem
	funcs map[string][]*ast.FuncDecl // and methods
}

// findState lists, for every directory, the package variables in the order in which they get their values.
func (in *inst) findState(src string, files []string) {
	in.state = map[string]*rePkg{}
	for _, rel := range files {
		if !strings.HasSuffix(rel, ".go") || ignored(rel) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, rel))
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, rel, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		text := func(n ast.Node) string { return string(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
		dir := filepath.Dir(rel)
		p := in.state[dir]
		if p == nil {
			p = &rePkg{vars: map[string]*reItem{}, funcs: map[string][]*ast.FuncDecl{}}
			in.state[dir] = p
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				p.funcs[d.Name.Name] = append(p.funcs[d.Name.Name], d)
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					v := sp.(*ast.ValueSpec)
					doc := ""
					for _, c := range []*ast.CommentGroup{d.Doc, v.Doc} {
						if c != nil {
							for _, l := range c.List {
								doc += l.Text
							}
						}
					}
					if strings.Contains(doc, "//go:") {
						continue // embedded files and the like
					}
					add := func(it *reItem) {
						it.rel = rel
						p.items = append(p.items, it)
						for _, n := range it.names {
							p.vars[n] = it
						}
					}
					var names []string
					for _, id := range v.Names {
						names = append(names, id.Name)
					}
					switch {
					case len(v.Values) == 0:
						for _, n := range names {
							if n != "_" {
								add(&reItem{names: []string{n}, text: fmt.Sprintf("%s = *new(%s)", n, text(v.Type))})
							}
						}
					case len(v.Values) == len(names):
						for i, n := range names {
							if n != "_" {
								add(&reItem{names: []string{n}, expr: v.Values[i], text: n + " = " + text(v.Values[i])})
							}
						}
					default:
						add(&reItem{names: names, expr: v.Values[0], text: strings.Join(names, ", ") + " = " + text(v.Values[0])})
					}
				}
			}
		}
	}
	for _, p := range in.state {
		next := 1
		var visit func(it *reItem)
		visit = func(it *reItem) {
			if it.state != 0 || it.expr == nil {
				return
			}
			it.state = 1
			seen := map[*ast.FuncDecl]bool{}
			var walk func(n ast.Node)
			walk = func(n ast.Node) {
				ast.Inspect(n, func(n ast.Node) bool {
					id, ok := n.(*ast.Ident)
					if !ok {
						return true
					}
					if v := p.vars[id.Name]; v != nil {
						visit(v)
					}
					for _, f := range p.funcs[id.Name] {
						if !seen[f] && f.Body != nil {
							seen[f] = true
							walk(f.Body)
						}
					}
					return true
				})
			}
			walk(it.expr)
			it.order = next
			next++
		}
		for _, it := range p.items {
			visit(it)
		}
	}
}

// stateCode is what is added to a file.
func (in *inst) stateCode(rel string, f *ast.File) (code string, inits []*ast.FuncDecl) {
	p := in.state[filepath.Dir(rel)]
	for _, d := range f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
			inits = append(inits, d)
		}
	}
	if p == nil || f.Name.Name == "main" {
		return "", nil
	}
	var b strings.Builder
	for _, it := range p.items {
		if it.rel == rel {
			fmt.Fprintf(&b, "\t%s.State(%q, %d, func() { %s })\n", sim, filepath.Dir(rel), it.order, it.text)
		}
	}
	for i := range inits {
		n := in.initName(rel, i)
		fmt.Fprintf(&b, "\t%s.State(%q, 1<<30, %s)\n\t%s()\n", sim, filepath.Dir(rel), n, n)
	}
	if b.Len() == 0 {
		return "", nil
	}
	return "\nfunc init() {\n" + b.String() + "}\n", inits
}

func (in *inst) initName(rel string, i int) string {
	return fmt.Sprintf("%sInit%s%d", sim, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, filepath.Base(rel)), i)
}
