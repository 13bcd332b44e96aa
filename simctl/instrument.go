package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument returns src with a preemption point before every statement and
// inside every read-modify-write statement. Line numbers do not change.
// rename, if not empty, renames package main and its func main.
//
// With maps set, accesses to maps are announced to the simulated runtime,
// which reports two goroutines about to access one map, one of them writing,
// as the Go runtime does when it notices: nothing orders them.
func instrument(name string, src []byte, rename string, maps bool) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	type ins struct {
		off, del int
		text     string
		ord      int
	}
	var list []ins
	sites := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p token.Pos, del int, text string) {
		list = append(list, ins{off(p), del, text, len(list)})
	}
	fn := "init"
	site := func(p token.Pos) uint32 {
		sites++
		h := fnv.New32a()
		pos := fset.Position(p)
		fmt.Fprintf(h, "%s:%s:%d:%d", filepath.Base(name), fn, pos.Line, pos.Column)
		return h.Sum32()
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var plain func(e ast.Expr) bool
	plain = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name != "_"
		case *ast.SelectorExpr:
			return plain(x.X)
		case *ast.StarExpr:
			return plain(x.X)
		case *ast.ParenExpr:
			return plain(x.X)
		case *ast.IndexExpr:
			if _, ok := x.Index.(*ast.BasicLit); ok {
				return plain(x.X)
			}
			return plain(x.X) && plain(x.Index)
		}
		return false
	}
	rmw := func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.IncDecStmt:
			if _, local := x.X.(*ast.Ident); !local && plain(x.X) || local {
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				add(x.TokPos, 2, fmt.Sprintf("= __sim.SimY(%d, %s) %s 1", site(x.Pos()), text(x.X), op))
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !plain(x.Lhs[0]) {
				return
			}
			switch x.Tok {
			case token.ASSIGN:
				call, ok := x.Rhs[0].(*ast.CallExpr)
				if !ok || len(call.Args) == 0 {
					return
				}
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "append" && text(call.Args[0]) == text(x.Lhs[0]) {
					add(call.Args[0].Pos(), 0, fmt.Sprintf("__sim.SimY(%d, ", site(call.Pos())))
					add(call.Args[0].End(), 0, ")")
				}
			case token.DEFINE:
			default:
				op := x.Tok.String()
				add(x.TokPos, len(op), fmt.Sprintf("= __sim.SimY(%d, %s) %s (", site(x.Pos()), text(x.Lhs[0]), strings.TrimSuffix(op, "=")))
				add(x.Rhs[0].End(), 0, ")")
			}
		}
	}
	// the maps (or slices, types are not known here) an expression indexes whenever it is evaluated
	var root func(e ast.Expr) *ast.Ident
	root = func(e ast.Expr) *ast.Ident {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			return root(x.X)
		}
		return nil
	}
	var indexed func(e ast.Node, f func(x ast.Expr, write bool))
	indexed = func(e ast.Node, f func(x ast.Expr, write bool)) {
		if e == nil {
			return
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.ArrayType, *ast.MapType, *ast.StructType, *ast.FuncType, *ast.ChanType, *ast.InterfaceType:
				return false
			case *ast.CompositeLit:
				for _, el := range x.Elts {
					indexed(el, f)
				}
				return false
			case *ast.BinaryExpr:
				if x.Op == token.LAND || x.Op == token.LOR {
					indexed(x.X, f)
					return false
				}
			case *ast.IndexExpr:
				if plain(x.X) {
					f(x.X, false)
				}
			case *ast.CallExpr:
				// http.Header and the like
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok && plain(sel.X) {
					if id := root(sel.X); id != nil && id.Obj != nil && id.Obj.Kind == ast.Var {
						switch sel.Sel.Name {
						case "Set", "Add", "Del":
							f(sel.X, true)
						case "Get", "Values":
							f(sel.X, false)
						}
					}
				}
			}
			return true
		})
	}
	access := func(s ast.Stmt) {
		if !maps {
			return
		}
		note := func(x ast.Expr, write bool) {
			add(s.Pos(), 0, fmt.Sprintf("__sim.SimMap(%d, any(%s), %v);", site(x.Pos())+7, text(x), write))
		}
		read := note
		var simple func(s ast.Stmt)
		simple = func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.AssignStmt:
				for _, e := range x.Rhs {
					indexed(e, read)
				}
				for _, e := range x.Lhs {
					if ix, ok := e.(*ast.IndexExpr); ok {
						if plain(ix.X) {
							note(ix.X, true)
						}
						indexed(ix.Index, read)
					} else {
						indexed(e, read)
					}
				}
			case *ast.IncDecStmt:
				if ix, ok := x.X.(*ast.IndexExpr); ok && plain(ix.X) {
					note(ix.X, true)
				}
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(c.Args) > 0 && plain(c.Args[0]) {
						note(c.Args[0], true)
						return
					}
				}
				indexed(x.X, read)
			case *ast.SendStmt:
				indexed(x.Chan, read)
				indexed(x.Value, read)
			}
		}
		switch x := s.(type) {
		case *ast.IfStmt:
			if x.Init != nil {
				simple(x.Init)
			} else {
				indexed(x.Cond, read)
			}
		case *ast.SwitchStmt:
			if x.Init != nil {
				simple(x.Init)
			} else if x.Tag != nil {
				indexed(x.Tag, read)
			}
		case *ast.ReturnStmt:
			for _, e := range x.Results {
				indexed(e, read)
			}
		case *ast.RangeStmt:
			if plain(x.X) {
				note(x.X, false)
				add(x.Body.Lbrace+1, 0, fmt.Sprintf("__sim.SimMap(%d, any(%s), false);", site(x.X.Pos())+8, text(x.X)))
			} else {
				indexed(x.X, read)
			}
		default:
			simple(s)
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			add(s.Pos(), 0, fmt.Sprintf("__sim.SimYield(%d);", site(s.Pos())))
			access(s)
			rmw(s)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			fn = fd.Name.Name
			if rename != "" && fd.Recv == nil && fd.Name.Name == "main" {
				add(fd.Name.Pos(), 4, "Main")
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					add(x.Body.Rbrace, 0, fmt.Sprintf("__sim.SimYield(%d);", site(x.Body.Rbrace)))
				}
			}
			return true
		})
	}
	if sites > 0 {
		add(f.Name.End(), 0, "; import __sim \"runtime\"")
	}
	if rename != "" {
		add(f.Name.Pos(), len(f.Name.Name), rename)
	}
	sort.SliceStable(list, func(i, j int) bool {
		if list[i].off != list[j].off {
			return list[i].off < list[j].off
		}
		return list[i].ord < list[j].ord
	})
	var out bytes.Buffer
	at := 0
	for _, in := range list {
		out.Write(src[at:in.off])
		out.WriteString(in.text)
		at = in.off + in.del
	}
	out.Write(src[at:])
	return out.Bytes(), sites, nil
}

// instrumentRepo instruments all library packages of the repository.
func instrumentRepo(repo, outDir string, maps bool, replace map[string]string) (int, []string, error) {
	total := 0
	var files []string
	err := filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "bin" || rel == "cli" || rel == "examples") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, n, err := instrument(path, src, "", maps)
		if err != nil {
			return err
		}
		dst := filepath.Join(outDir, "repo__"+strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		replace[path] = dst
		total += n
		files = append(files, rel)
		return nil
	})
	if err != nil {
		return 0, nil, err
	}
	return total, files, nil
}

// instrumentProgram makes an importable package of a program's source files.
func instrumentProgram(dir, pkg, virtualDir, outDir string, maps bool, replace map[string]string) (int, error) {
	return instrumentProgramWith(dir, pkg, virtualDir, outDir, maps, replace, nil)
}

func instrumentProgramWith(dir, pkg, virtualDir, outDir string, maps bool, replace map[string]string, change func(name string, src []byte) ([]byte, error)) (int, error) {
	total := 0
	ents, err := os.ReadDir(dir)
	if err != nil {
		return 0, err
	}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return 0, err
		}
		if change != nil {
			if src, err = change(e.Name(), src); err != nil {
				return 0, err
			}
		}
		out, n, err := instrument(filepath.Join(dir, e.Name()), src, pkg, maps)
		if err != nil {
			return 0, err
		}
		dst := filepath.Join(outDir, "prog__"+pkg+"__"+e.Name())
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return 0, err
		}
		total += n
		replace[filepath.Join(virtualDir, e.Name())] = dst
	}
	return total, nil
}

// seams hands a program's process over to the simulation: its uses of
// os.Args, os.Exit, os.Stdout, fmt.Println and the like become those of the
// variable simprog, see worker/prog. Lines do not move.
func seams(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	names := map[string]string{} // local name to package
	keep := ""
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"")
		use := map[string]string{"os": "os.Signal", "fmt": "fmt.Stringer"}[path]
		if use == "" {
			continue
		}
		local := path
		if im.Name != nil {
			local = im.Name.Name
		}
		if local == "_" || local == "." {
			continue
		}
		names[local] = path
		keep += "; var _ " + local + strings.TrimPrefix(use, path)
	}
	ours := map[string]bool{"os.Args": true, "os.Exit": true, "os.Stdout": true, "os.Stderr": true, "os.Getenv": true, "os.LookupEnv": true,
		"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true}
	var at []int
	lens := map[int]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := sel.X.(*ast.Ident)
		if !ok || x.Obj != nil || !ours[names[x.Name]+"."+sel.Sel.Name] {
			return true
		}
		o := fset.Position(x.Pos()).Offset
		at = append(at, o)
		lens[o] = len(x.Name)
		return true
	})
	sort.Ints(at)
	var out bytes.Buffer
	last := 0
	for _, o := range at {
		out.Write(src[last:o])
		out.WriteString("simprog")
		last = o + lens[o]
	}
	out.Write(src[last:])
	if keep != "" {
		out.WriteString("\n" + strings.TrimPrefix(keep, "; ") + "\n")
	}
	return out.Bytes(), nil
}

// cliProgs are the command-line programs and how many of each can run.
var cliProgs = []struct {
	name string
	n    int
}{{"call", 4}, {"notify", 3}, {"watch", 3}, {"benchmark", 2}}

// instrumentCli makes packages of the command-line programs.
func instrumentCli(repo, worker, outDir string, maps bool, replace map[string]string) (int, []string, error) {
	total := 0
	var files []string
	on := "//go:build withcli\n\npackage main\n\nimport (\n"
	for _, p := range cliProgs {
		for i := 0; i < p.n; i++ {
			pkg := fmt.Sprintf("cli%s%d", p.name, i)
			n, err := instrumentProgramWith(filepath.Join(repo, "cli", p.name), pkg, filepath.Join(worker, pkg), outDir, maps, replace, seams)
			if err != nil {
				return 0, nil, err
			}
			total += n
			seam := filepath.Join(outDir, "seam__"+pkg+".go")
			text := "package " + pkg + "\n\nimport \"jlibverif/worker/prog\"\n\nvar simprog = prog.New(\"" + p.name + "\")\n\nfunc init() { simprog.Main = Main }\n"
			if err := os.WriteFile(seam, []byte(text), 0o644); err != nil {
				return 0, nil, err
			}
			replace[filepath.Join(worker, pkg, "simprog_seam.go")] = seam
			on += "\t_ \"jlibverif/worker/" + pkg + "\"\n"
		}
		files = append(files, "cli/"+p.name)
	}
	on += ")\n"
	dst := filepath.Join(outDir, "cli_on.go")
	if err := os.WriteFile(dst, []byte(on), 0o644); err != nil {
		return 0, nil, err
	}
	replace[filepath.Join(worker, "cli_on.go")] = dst
	return total, files, nil
}
