// Command instrument copies a Go source tree and puts it behind the simulator's seams.
//
//	instrument SRC DST SITES
//
// Every non-test .go file of SRC is copied to DST with (a) a scheduling point vsim__.Y(n) before every
// statement and (b) every use of an ambient source of nondeterminism or effects (clock, randomness, files,
// standard output, locks, goroutines, channels) redirected to the simulator's version of it. The edits are
// made on the text, by byte offset, so line numbers and directives stay as they are. The tree SRC itself is
// never written. SITES receives one "n<TAB>file:line" per scheduling point.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, del int
	text     string
	prio     int
}

const sim = "vsim__"

// redirect maps import path -> selector -> replacement expression.
var redirect = map[string]map[string]string{
	"time": m("Now", "Since", "Until", "Sleep", "After", "AfterFunc>", "Tick>", "NewTimer>", "NewTicker>"),
	"crypto/rand": {
		"Reader": sim + ".RandReader", "Read": sim + ".RandRead", "Text": sim + ".RandText",
	},
	"os": m("ReadFile", "WriteFile", "Open", "Create", "OpenFile", "Remove", "RemoveAll", "Rename", "Stat", "Lstat",
		"Mkdir", "MkdirAll", "MkdirTemp", "CreateTemp", "Chmod", "Truncate", "File", "Stdout", "Stderr", "Stdin", "Exit", "TempDir", "ReadDir",
		"Link", "Symlink", "Chtimes"),
	"io/ioutil": {
		"ReadFile": sim + ".ReadFile", "WriteFile": sim + ".WriteFile", "TempFile": sim + ".CreateTemp", "TempDir": sim + ".MkdirTemp",
	},
	"fmt":     m("Print", "Println", "Printf"),
	"log":     {"Print": sim + ".LogPrint", "Println": sim + ".LogPrintln", "Printf": sim + ".LogPrintf", "Fatal": sim + ".LogFatal", "Fatalf": sim + ".LogFatalf", "Fatalln": sim + ".LogFatalln"},
	"sync":    m("Mutex", "RWMutex", "Once", "WaitGroup", "Pool", "OnceFunc", "OnceValue", "OnceValues", "Cond", "NewCond", "Locker"),
	"runtime": m("Gosched", "GC>"),
}

var mathRand = map[string]bool{"New": true, "NewSource": true, "Rand": true, "Source": true, "Source64": true, "NewZipf": true, "Zipf": true,
	"NewPCG": true, "NewChaCha8": true, "PCG": true, "ChaCha8": true, "N": true}

func m(names ...string) map[string]string {
	r := map[string]string{}
	for _, n := range names {
		if strings.HasSuffix(n, ">") {
			continue
		}
		r[n] = sim + "." + n
	}
	return r
}

var builtin = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "recover": true, "copy": true, "delete": true, "clear": true}

type inst struct {
	fset  *token.FileSet
	next  int
	sites []string

	labels   int
	pkgMaps  map[string]map[string]bool // directory -> package-level variables that are maps
	mapField map[string]map[string]int  // directory -> struct fields: 1 maps, 2 others, 3 both
	state    map[string]*rePkg          // directory -> package variables
}

func isMapType(t, v ast.Expr) bool {
	if _, ok := t.(*ast.MapType); ok {
		return true
	}
	switch v := v.(type) {
	case *ast.CompositeLit:
		_, ok := v.Type.(*ast.MapType)
		return ok
	case *ast.CallExpr:
		if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "make" && len(v.Args) > 0 {
			_, ok := v.Args[0].(*ast.MapType)
			return ok
		}
	}
	return false
}

// findMaps notes which package-level variables and struct fields are maps.
func (in *inst) findMaps(src string, files []string) {
	in.pkgMaps, in.mapField = map[string]map[string]bool{}, map[string]map[string]int{}
	for _, rel := range files {
		if !strings.HasSuffix(rel, ".go") || ignored(rel) {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(src, rel), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		dir := filepath.Dir(rel)
		if in.pkgMaps[dir] == nil {
			in.pkgMaps[dir], in.mapField[dir] = map[string]bool{}, map[string]int{}
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, id := range v.Names {
					var val ast.Expr
					if i < len(v.Values) {
						val = v.Values[i]
					}
					if isMapType(v.Type, val) {
						in.pkgMaps[dir][id.Name] = true
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if st, ok := n.(*ast.StructType); ok {
				for _, x := range st.Fields.List {
					k := 2
					if isMapType(x.Type, nil) {
						k = 1
					}
					for _, id := range x.Names {
						in.mapField[dir][id.Name] |= k
					}
				}
			}
			return true
		})
	}
}

// mapUses lists the shared maps that a statement, apart from blocks inside it, writes and reads.
func (in *inst) mapUses(dir string, f *ast.File, s ast.Stmt) (writes, reads []ast.Expr) {
	var shared func(x ast.Expr) bool
	shared = func(x ast.Expr) bool {
		switch x := x.(type) {
		case *ast.ParenExpr:
			return shared(x.X)
		case *ast.Ident:
			return in.pkgMaps[dir][x.Name] && (x.Obj == nil || f.Scope.Lookup(x.Name) == x.Obj)
		case *ast.SelectorExpr:
			if in.mapField[dir][x.Sel.Name] != 1 {
				return false
			}
			for y := x.X; ; {
				switch z := y.(type) {
				case *ast.Ident:
					return true
				case *ast.SelectorExpr:
					y = z.X
					continue
				}
				return false
			}
		}
		return false
	}
	note := func(to *[]ast.Expr, x ast.Expr) {
		if shared(x) {
			*to = append(*to, x)
		}
	}
	lhs := map[ast.Node]bool{}
	var local map[string]bool // declared by the statement itself: not yet there before it
	add := func(names ...ast.Expr) {
		for _, n := range names {
			if id, ok := n.(*ast.Ident); ok {
				if local == nil {
					local = map[string]bool{}
				}
				local[id.Name] = true
			}
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt:
			return n == s
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					lhs[ix] = true
					note(&writes, ix.X)
				}
			}
			if n.Tok == token.DEFINE {
				add(n.Lhs...)
			}
		case *ast.IncDecStmt:
			if ix, ok := n.X.(*ast.IndexExpr); ok {
				lhs[ix] = true
				note(&writes, ix.X)
			}
		case *ast.RangeStmt:
			note(&reads, n.X)
			if n.Tok == token.DEFINE {
				add(n.Key, n.Value)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Obj == nil && len(n.Args) > 0 {
				switch id.Name {
				case "delete", "clear":
					note(&writes, n.Args[0])
				}
			}
		case *ast.IndexExpr:
			if !lhs[n] {
				note(&reads, n.X)
			}
		}
		return true
	})
	root := func(x ast.Expr) bool {
		for {
			switch z := x.(type) {
			case *ast.ParenExpr:
				x = z.X
			case *ast.SelectorExpr:
				x = z.X
			case *ast.Ident:
				return !local[z.Name]
			default:
				return false
			}
		}
	}
	keep := func(l []ast.Expr) (out []ast.Expr) {
		for _, x := range l {
			if root(x) {
				out = append(out, x)
			}
		}
		return
	}
	return keep(writes), keep(reads)
}

// isChan reports whether an expression is a channel, as far as its declaration in the same file tells.
func isChan(x ast.Expr, fields map[string]int) bool {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return isChan(x.X, fields)
	case *ast.SelectorExpr:
		return fields[x.Sel.Name] == 1
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && id.Obj == nil && len(x.Args) > 0 {
			_, ok := x.Args[0].(*ast.ChanType)
			return ok
		}
	case *ast.Ident:
		if x.Obj == nil {
			return false
		}
		switch d := x.Obj.Decl.(type) {
		case *ast.Field:
			_, ok := d.Type.(*ast.ChanType)
			return ok
		case *ast.ValueSpec:
			if _, ok := d.Type.(*ast.ChanType); ok {
				return true
			}
			for i, id := range d.Names {
				if id.Name == x.Name && i < len(d.Values) {
					return isChan(d.Values[i], fields)
				}
			}
		case *ast.AssignStmt:
			for i, l := range d.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == x.Name && len(d.Rhs) == len(d.Lhs) {
					return isChan(d.Rhs[i], fields)
				}
			}
		}
	}
	return false
}

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: instrument SRC DST SITES")
		os.Exit(2)
	}
	src, dst := os.Args[1], os.Args[2]
	in := &inst{fset: token.NewFileSet(), next: 1}
	var files []string
	err := filepath.WalkDir(src, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if d.IsDir() {
			if d.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		files = append(files, rel)
		return nil
	})
	if err == nil {
		sort.Strings(files)
		in.findMaps(src, files)
		in.findState(src, files)
		for _, rel := range files {
			var b []byte
			if b, err = os.ReadFile(filepath.Join(src, rel)); err != nil {
				break
			}
			if strings.HasSuffix(rel, ".go") && !ignored(rel) {
				if b, err = in.file(rel, b); err != nil {
					break
				}
			}
			if err = os.WriteFile(filepath.Join(dst, rel), b, 0o644); err != nil {
				break
			}
		}
	}
	if err == nil {
		err = os.WriteFile(os.Args[3], []byte(strings.Join(in.sites, "\n")+"\n"), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
	fmt.Printf("instrumented %d files, %d scheduling points\n", len(files), in.next-1)
}

// ignored reports whether the go command ignores a file.
func ignored(rel string) bool {
	for _, d := range strings.Split(rel, string(filepath.Separator)) {
		if d == "testdata" || d[0] == '_' || d[0] == '.' {
			return true
		}
	}
	return false
}

func (in *inst) file(rel string, src []byte) ([]byte, error) {
	f, err := parser.ParseFile(in.fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	code, inits := in.stateCode(rel, f)
	if code != "" {
		src = append(append([]byte{}, src...), code...)
		in.fset.RemoveFile(in.fset.File(f.Pos()))
		if f, err = parser.ParseFile(in.fset, rel, src, parser.ParseComments); err != nil {
			return nil, err
		}
	}
	var edits []edit
	off := func(p token.Pos) int { return in.fset.Position(p).Offset }
	add := func(p token.Pos, text string) { edits = append(edits, edit{off: off(p), text: text}) }

	// imports
	imps := map[string]string{} // local name -> path
	uses := map[string]int{}
	gone := map[string]int{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := path[strings.LastIndex(path, "/")+1:]
		if len(name) > 1 && name[0] == 'v' && strings.Trim(name[1:], "0123456789") == "" {
			rest := path[:strings.LastIndex(path, "/")]
			name = rest[strings.LastIndex(rest, "/")+1:]
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		if name != "_" && name != "." {
			imps[name] = path
		}
	}
	used := false
	site := func(p token.Pos) string {
		n := in.next
		in.next++
		pos := in.fset.Position(p)
		in.sites = append(in.sites, fmt.Sprintf("%d\t%s:%d", n, rel, pos.Line))
		used = true
		return fmt.Sprintf("%s.Y(%d); ", sim, n)
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			text := site(s.Pos())
			ws, rs := in.mapUses(filepath.Dir(rel), f, s)
			for _, x := range rs {
				text += fmt.Sprintf("%s.MapRead(func() any { return %s }); ", sim, src[off(x.Pos()):off(x.End())])
			}
			for _, x := range ws {
				text += fmt.Sprintf("%s.MapWrite(func() any { return %s }); ", sim, src[off(x.Pos()):off(x.End())])
			}
			edits = append(edits, edit{off: off(s.Pos()), text: text, prio: -1})
		}
	}
	if code != "" {
		used = true
		i := 0
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" && d.Body != nil && i < len(inits) {
				edits = append(edits, edit{off: off(d.Name.Pos()), del: len("init"), text: in.initName(rel, i)})
				i++
			}
		}
	}
	comm := map[ast.Node]bool{}
	labelled := map[*ast.SelectStmt]*ast.LabeledStmt{}
	fields := map[string]int{} // names of struct fields: 1 channels, 2 others, 3 both
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.StructType); ok {
			for _, x := range s.Fields.List {
				k := 2
				if _, ok := x.Type.(*ast.ChanType); ok {
					k = 1
				}
				for _, id := range x.Names {
					fields[id.Name] |= k
				}
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
			if n.Comm != nil {
				comm[n.Comm] = true
				ast.Inspect(n.Comm, func(c ast.Node) bool {
					if c != nil {
						comm[c] = true
					}
					return true
				})
			}
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(n.Body.Lbrace+1, " "+strings.TrimSuffix(site(n.Body.Pos()), "; ")+" ")
			}
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				labelled[s] = n
			}
		case *ast.SelectStmt:
			in.labels++
			l := fmt.Sprintf("%sL%d", sim, in.labels)
			text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
			pre, cases, waits := "", 0, true
			// hoist evaluates an expression with effects once, before the attempts
			hoist := func(x ast.Expr) {
				effects := false
				ast.Inspect(x, func(y ast.Node) bool {
					switch y := y.(type) {
					case *ast.CallExpr:
						effects = true
					case *ast.UnaryExpr:
						effects = effects || y.Op == token.ARROW
					}
					return true
				})
				if effects {
					in.labels++
					v := fmt.Sprintf("%sH%d", sim, in.labels)
					t := text(x)
					for p, rs := range redirect {
						for local, path := range imps {
							if path == p {
								for from, to := range rs {
									t = strings.ReplaceAll(t, local+"."+from+"(", to+"(")
								}
							}
						}
					}
					pre += v + " := " + t + "; "
					edits = append(edits, edit{off: off(x.Pos()), del: off(x.End()) - off(x.Pos()), text: v, prio: -3})
				}
			}
			for _, s := range n.Body.List {
				c := s.(*ast.CommClause)
				if c.Comm == nil {
					waits = false
					add(c.Colon+1, fmt.Sprintf(" if %s.SelNext() { goto %s }; ", sim, l))
					continue
				}
				var ch ast.Expr
				f := "Only"
				switch k := c.Comm.(type) {
				case *ast.SendStmt:
					ch, f = k.Chan, "OnlySend"
					hoist(k.Value)
				case *ast.ExprStmt:
					ch = ast.Unparen(k.X).(*ast.UnaryExpr).X
				case *ast.AssignStmt:
					ch = ast.Unparen(k.Rhs[0]).(*ast.UnaryExpr).X
				}
				edits = append(edits, edit{off: off(ch.Pos()), text: fmt.Sprintf("%s.%s(%d, ", sim, f, cases), prio: -4})
				hoist(ch)
				edits = append(edits, edit{off: off(ch.End()), text: ")", prio: -5})
				cases++
			}
			at := n.Pos()
			if o := labelled[n]; o != nil {
				at = o.Pos()
			}
			edits = append(edits, edit{off: off(at), text: fmt.Sprintf("%s%s.SelStart(%d); %s: ", pre, sim, cases, l)})
			if waits {
				add(n.Body.Rbrace, fmt.Sprintf("\ndefault: %s.SelWait(); goto %s; ", sim, l))
			}
			used = true
		case *ast.RangeStmt:
			if isChan(n.X, fields) && n.Value == nil {
				head, val := sim+"C := ("+string(src[off(n.X.Pos()):off(n.X.End())])+"); ; ", "_"
				pre := ""
				if n.Key != nil {
					val = string(src[off(n.Key.Pos()):off(n.Key.End())])
					if n.Tok == token.ASSIGN {
						pre, val = fmt.Sprintf("var %sV = %s.Zero(%sC); %sOK := false; ", sim, sim, sim, sim), sim+"V"
						pre += fmt.Sprintf("%sV, %sOK = %s.Recv2(%sC); if !%sOK { break }; %s = %sV; ", sim, sim, sim, sim, sim, string(src[off(n.Key.Pos()):off(n.Key.End())]), sim)
					}
				}
				if pre == "" {
					pre = fmt.Sprintf("%s, %sOK := %s.Recv2(%sC); if !%sOK { break }; ", val, sim, sim, sim, sim)
				}
				edits = append(edits, edit{off: off(n.For) + 3, del: off(n.X.End()) - off(n.For) - 3, text: " " + head})
				edits = append(edits, edit{off: off(n.Body.Lbrace) + 1, text: " " + pre, prio: -2})
				used = true
			}
			if len(n.Body.List) == 0 {
				add(n.Body.Lbrace+1, " "+strings.TrimSuffix(site(n.Body.Pos()), "; ")+" ")
			}
		case *ast.GoStmt:
			used = true
			if id, ok := n.Call.Fun.(*ast.Ident); ok && builtin[id.Name] && id.Obj == nil {
				edits = append(edits, edit{off: off(n.Go), del: 2, text: sim + ".Go(func() { "})
				add(n.Call.End(), " })")
				break
			}
			// the function value and the arguments are evaluated here and now
			edits = append(edits, edit{off: off(n.Go), del: 2, text: sim + ".GoCall("})
			edits = append(edits, edit{off: off(n.Call.Lparen), del: 1, text: fmt.Sprintf(", %v, ", n.Call.Ellipsis.IsValid())})
			if n.Call.Ellipsis.IsValid() {
				edits = append(edits, edit{off: off(n.Call.Ellipsis), del: 3})
			}
		case *ast.SendStmt:
			if !comm[n] {
				add(n.Pos(), sim+".Send(")
				edits = append(edits, edit{off: off(n.Arrow), del: 2, text: ")("})
				add(n.End(), ")")
				used = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 && !comm[n] {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comm[u] = true
					edits = append(edits, edit{off: off(u.OpPos), del: 2, text: sim + ".Recv2("})
					add(u.End(), ")")
					used = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				edits = append(edits, edit{off: off(n.OpPos), del: 2, text: sim + ".Recv("})
				add(n.End(), ")")
				used = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Obj == nil {
				switch id.Name {
				case "println", "print":
					edits = append(edits, edit{off: off(id.Pos()), del: len(id.Name), text: sim + ".Builtin" + id.Name})
					used = true
				case "make":
					if len(n.Args) == 1 {
						if _, ok := n.Args[0].(*ast.ChanType); ok {
							add(n.Rparen, ", 1")
						}
					}
				}
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			path, ok := imps[id.Name]
			if !ok {
				return true
			}
			uses[id.Name]++
			repl := ""
			if r, ok := redirect[path][n.Sel.Name]; ok {
				repl = r
			} else if path == "math/rand" && !mathRand[n.Sel.Name] {
				repl = sim + ".MathRand()." + n.Sel.Name
			} else if path == "math/rand/v2" && !mathRand[n.Sel.Name] {
				repl = sim + ".MathRandV2()." + n.Sel.Name
			}
			if repl != "" {
				gone[id.Name]++
				used = true
				edits = append(edits, edit{off: off(n.Pos()), del: off(n.End()) - off(n.Pos()), text: repl})
			}
		}
		return true
	})
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		for name, p := range imps {
			if p == path && gone[name] > 0 && gone[name] == uses[name] && (im.Name == nil || im.Name.Name == name) {
				if im.Name != nil {
					edits = append(edits, edit{off: off(im.Name.Pos()), del: len(name), text: "_"})
				} else {
					add(im.Path.Pos(), "_ ")
				}
			}
		}
	}
	if used {
		edits = append(edits, edit{off: off(f.Name.End()), text: "; import " + sim + ` "mcverif/vsim"`})
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.off < at {
			continue // nested in an already replaced range
		}
		out.Write(src[at:e.off])
		out.WriteString(e.text)
		at = e.off + e.del
	}
	out.Write(src[at:])
	return out.Bytes(), nil
}
