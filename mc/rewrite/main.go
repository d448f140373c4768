// Command rewrite closes the system under test: it copies the non-test Go sources of a repository to a
// scratch directory and redirects every use of the outside world to the package verifvrt.
//
//   - pkg.Name, for a standard package in pkgs and a Name for which verifvrt declares Prefix_Name,
//     becomes verifvrt.Prefix_Name
//   - go f(x)      becomes verifvrt.GoCall(f, x)
//   - ch <- v      becomes verifvrt.Send(ch)(v)
//   - <-ch         becomes verifvrt.Recv(ch) / verifvrt.Recv2(ch)
//   - select       gets every channel operand wrapped in verifvrt.SelRecv / verifvrt.SelSend
//   - for v := range ch becomes a loop around verifvrt.Recv2(ch)
//   - bodies of functions and loops get verifvrt.Mem() in front, an optional scheduling point
//
// The edits are made on selectors and statements only, so they do not depend on how the code is written.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var pkgs = map[string]string{
	"time": "Time", "math/rand": "Rand", "math/rand/v2": "Rand", "syscall": "Syscall", "os": "Os",
	"os/exec": "Exec", "sync": "Sync", "sync/atomic": "Atomic", "io/ioutil": "Ioutil",
}

type edit struct {
	off, end int
	text     string
	seq      int
}

func fatal(args ...any) { fmt.Fprintln(os.Stderr, append([]any{"rewrite:"}, args...)...); os.Exit(2) }

// overrides returns the names Prefix_Name declared by the runtime package.
func overrides(dir string) map[string]bool {
	res := map[string]bool{}
	fset := token.NewFileSet()
	ps, err := parser.ParseDir(fset, dir, nil, 0)
	if err != nil {
		fatal(err)
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						res[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							res[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								res[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return res
}

// chanRanges finds the loops over channels: file name -> offsets of the for keywords. Types of
// packages outside the module are not needed for that and are left unknown.
type chanRanges struct {
	repo, module string
	found        map[string]map[int]bool
	done         map[string]*types.Package
}

func (cr *chanRanges) Import(path string) (*types.Package, error) {
	if p, ok := cr.done[path]; ok {
		return p, nil
	}
	if path != cr.module && !strings.HasPrefix(path, cr.module+"/") {
		p := types.NewPackage(path, filepath.Base(path))
		p.MarkComplete()
		cr.done[path] = p
		return p, nil
	}
	dir := filepath.Join(cr.repo, strings.TrimPrefix(strings.TrimPrefix(path, cr.module), "/"))
	return cr.check(path, dir), nil
}

func (cr *chanRanges) check(path, dir string) *types.Package {
	if p, ok := cr.done[path]; ok {
		return p
	}
	cr.done[path] = types.NewPackage(path, filepath.Base(path))
	fset := token.NewFileSet()
	var files []*ast.File
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0); err == nil {
			files = append(files, f)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: cr, Error: func(error) {}, DisableUnusedImportCheck: true}
	p, _ := conf.Check(path, fset, files, info)
	if p != nil {
		cr.done[path] = p
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			t := info.Types[r.X].Type
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Chan); ok {
				pos := fset.Position(r.For)
				if cr.found[pos.Filename] == nil {
					cr.found[pos.Filename] = map[int]bool{}
				}
				cr.found[pos.Filename][pos.Offset] = true
			}
			return true
		})
	}
	return cr.done[path]
}

func rewriteFile(src []byte, name, rtPath string, ov map[string]bool, chans map[int]bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		fatal(err)
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(from, to int, text string) { edits = append(edits, edit{from, to, text, len(edits)}) }

	imports := map[string]string{} // local name -> path
	specs := map[string]*ast.ImportSpec{}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		local := filepath.Base(path)
		if path == "math/rand/v2" {
			local = "rand"
		}
		if s.Name != nil {
			local = s.Name.Name
		}
		if _, ok := pkgs[path]; ok {
			imports[local] = path
			specs[local] = s
		}
	}
	rest := map[string]int{} // uses left of the original import
	used := false

	// statements that live in a statement list, and expressions that must be left alone
	inList := map[ast.Stmt]bool{}
	skipRecv := map[ast.Expr]bool{}
	recv2 := map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		mark := func(l []ast.Stmt) {
			for _, s := range l {
				inList[s] = true
			}
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			mark(n.List)
		case *ast.CaseClause:
			mark(n.Body)
		case *ast.CommClause:
			mark(n.Body)
			switch c := n.Comm.(type) {
			case *ast.ExprStmt:
				skipRecv[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				for _, r := range c.Rhs {
					skipRecv[ast.Unparen(r)] = true
				}
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				recv2[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				recv2[ast.Unparen(n.Values[0])] = true
			}
		}
		return true
	})

	mem := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) > 0 {
			used = true
			add(off(b.Lbrace)+1, off(b.Lbrace)+1, " verifvrt.Mem(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			mem(n.Body)
		case *ast.ForStmt:
			mem(n.Body)
		case *ast.RangeStmt:
			if chans[off(n.For)] {
				used = true
				add(off(n.For), off(n.X.Pos()), "for verifCh := (")
				recv := ""
				switch {
				case n.Key == nil:
					recv = "_, verifOk := verifvrt.Recv2(verifCh)"
				case n.Tok == token.DEFINE:
					recv = string(src[off(n.Key.Pos()):off(n.Key.End())]) + ", verifOk := verifvrt.Recv2(verifCh)"
				default:
					k := string(src[off(n.Key.Pos()):off(n.Key.End())])
					recv = "verifV, verifOk := verifvrt.Recv2(verifCh); if verifOk { " + k + " = verifV }"
				}
				add(off(n.X.End()), off(n.Body.Lbrace)+1, "); ; { "+recv+"; if !verifOk { break }; ")
			}
			mem(n.Body)
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			path, ok := imports[id.Name]
			if !ok {
				return true
			}
			repl := pkgs[path] + "_" + n.Sel.Name
			if ov[repl] {
				add(off(n.Pos()), off(n.End()), "verifvrt."+repl)
				used = true
			} else {
				rest[id.Name]++
			}
			return false
		case *ast.GoStmt:
			used = true
			call := n.Call
			fn := "verifvrt.GoCall("
			if call.Ellipsis != token.NoPos {
				fn = "verifvrt.GoCallSlice("
			}
			add(off(n.Pos()), off(call.Fun.Pos()), fn)
			if len(call.Args) > 0 {
				add(off(call.Lparen), off(call.Lparen)+1, ", ")
				if call.Ellipsis != token.NoPos {
					add(off(call.Ellipsis), off(call.Ellipsis)+3, "")
				}
			} else {
				add(off(call.Lparen), off(call.Lparen)+1, "")
			}
		case *ast.SendStmt:
			if inList[n] {
				used = true
				add(off(n.Pos()), off(n.Pos()), "verifvrt.Send(")
				add(off(n.Arrow), off(n.Arrow)+2, ")(")
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.SelectStmt:
			// every channel operand registers what it waits for; the last one to be evaluated waits
			var chans []ast.Expr
			var dir []string
			def := "false"
			for _, c := range n.Body.List {
				var x ast.Expr
				switch s := c.(*ast.CommClause).Comm.(type) {
				case nil:
					def = "true"
				case *ast.SendStmt:
					chans, dir = append(chans, s.Chan), append(dir, "Send")
				case *ast.ExprStmt:
					x = s.X
				case *ast.AssignStmt:
					x = s.Rhs[0]
				}
				if x != nil {
					chans, dir = append(chans, ast.Unparen(x).(*ast.UnaryExpr).X), append(dir, "Recv")
				}
			}
			for i, x := range chans {
				used = true
				add(off(x.Pos()), off(x.Pos()), fmt.Sprintf("verifvrt.Sel%s(%v, %s, ", dir[i], i == len(chans)-1, def))
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skipRecv[n] {
				used = true
				fn := "verifvrt.Recv("
				if recv2[n] {
					fn = "verifvrt.Recv2("
				}
				add(off(n.OpPos), off(n.OpPos)+2, fn)
				add(off(n.End()), off(n.End()), ")")
			}
		}
		return true
	})
	for local, s := range specs {
		if rest[local] == 0 {
			if s.Name != nil {
				add(off(s.Name.Pos()), off(s.Name.End()), "_")
			} else {
				add(off(s.Path.Pos()), off(s.Path.Pos()), "_ ")
			}
		}
	}
	if used {
		add(off(f.Name.End()), off(f.Name.End()), "; import verifvrt "+strconv.Quote(rtPath))
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			fatal("overlapping edits in", name)
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.Bytes()
}

func copyTree(from, to string) {
	ents, err := os.ReadDir(from)
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(to, 0o755)
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			fatal(err)
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0o644); err != nil {
			fatal(err)
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	mc := flag.String("mc", "/verif/mc", "directory with vrt and verifmc")
	out := flag.String("out", "", "")
	flag.Parse()
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	module := ""
	for _, l := range strings.Split(string(gomod), "\n") {
		if strings.HasPrefix(l, "module ") {
			module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	ov := overrides(filepath.Join(*mc, "vrt"))
	os.MkdirAll(*out, 0o755)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, n))
		if err != nil {
			fatal(err)
		}
		os.WriteFile(filepath.Join(*out, n), b, 0o644)
	}
	cr := &chanRanges{repo: *repo, module: module, found: map[string]map[int]bool{}, done: map[string]*types.Package{}}
	err = filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			base := d.Name()
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "logs" || rel == "cmd" || rel == "bin" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || filepath.Dir(rel) == "." {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		cr.check(module+"/"+filepath.ToSlash(filepath.Dir(rel)), filepath.Dir(p))
		dst := filepath.Join(*out, rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		return os.WriteFile(dst, rewriteFile(src, p, module+"/verifvrt", ov, cr.found[p]), 0o644)
	})
	if err != nil {
		fatal(err)
	}
	copyTree(filepath.Join(*mc, "vrt"), filepath.Join(*out, "verifvrt"))
	copyTree(filepath.Join(*mc, "verifmc"), filepath.Join(*out, "verifmc"))
}
