// Command instr rewrites the (non-test) Go sources of the repository for the
// model checker and writes an overlay file for "go build -overlay":
//
//   - vrt.Point() before every statement: step counter and scheduling point,
//   - import "sync" replaced by a scheduler-aware package with the same API,
//   - "for k, v := range m" over a map replaced by an iteration in an order
//     that the explorer chooses, likewise maps.Keys/Values/All,
//   - "go f()" replaced by vrt.Go(f).
//
// Usage: instr -repo DIR -out DIR -harness DIR [-module PATH] [-plain]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Name       string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	harness := flag.String("harness", "", "")
	plain := flag.Bool("plain", false, "no instrumentation, overlay only")
	flag.Parse()

	replace := map[string]string{}
	module := moduleName(*repo)

	// The harness becomes part of the module.
	_ = filepath.WalkDir(*harness, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*harness, path)
		if d.IsDir() {
			if rel == "instr" {
				return fs.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") {
			replace[filepath.Join(*repo, "internal", rel)] = path
		}
		return nil
	})

	if !*plain {
		instrument(*repo, *out, module, replace)
	}

	buf, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), buf, 0o644))
}

func moduleName(repo string) string {
	buf, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	check(err)
	for _, l := range strings.Split(string(buf), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	check(fmt.Errorf("no module line"))
	return ""
}

func instrument(repo, out, module string, replace map[string]string) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Name", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	buf, err := cmd.Output()
	check(err)

	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(buf))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && (p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) {
			pkgs = append(pkgs, p)
		}
	}

	channels := false
	defer func() {
		target := filepath.Join(out, "channels.go")
		check(os.WriteFile(target, []byte(fmt.Sprintf("package vrt\n\nfunc init() { Channels = %v }\n", channels)), 0o644))
		replace[filepath.Join(repo, "internal", "vrt", "channels.go")] = target
	}()
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			file, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			check(err)
			files = append(files, file)
			names = append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{
			Error: func(error) {},
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				f, ok := exports[path]
				if !ok || f == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(f)
			}),
			Sizes: types.SizesFor("gc", runtime.GOARCH),
		}
		_, _ = conf.Check(p.ImportPath, fset, files, info)

		for i, file := range files {
			ast.Inspect(file, func(n ast.Node) bool {
				if _, ok := n.(*ast.ChanType); ok {
					channels = true
				}
				return true
			})
			for _, imp := range file.Imports {
				if strings.HasPrefix(imp.Path.Value, "\"golang.org/x/sync/") {
					channels = true
				}
			}
			rw := &rewriter{info: info, module: module}
			rw.file(file)
			var dst bytes.Buffer
			// Keep the build constraints, drop all other comments: they would
			// end up in the wrong places.
			for _, cg := range file.Comments {
				if cg.End() < file.Package {
					for _, c := range cg.List {
						if constraint.IsGoBuild(c.Text) {
							fmt.Fprintf(&dst, "%s\n\n", c.Text)
						}
					}
				}
			}
			dropComments(file)
			check(format.Node(&dst, token.NewFileSet(), file))
			rel, _ := filepath.Rel(repo, names[i])
			target := filepath.Join(out, "src", rel)
			check(os.MkdirAll(filepath.Dir(target), 0o755))
			check(os.WriteFile(target, dst.Bytes(), 0o644))
			replace[names[i]] = target
		}
	}
}

func dropComments(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			// Directives such as //go:embed are kept.
			if n.Doc != nil {
				var keep []*ast.Comment
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						keep = append(keep, c)
					}
				}
				n.Doc = nil
				if keep != nil {
					n.Doc = &ast.CommentGroup{List: keep}
				}
			}
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

type rewriter struct {
	info   *types.Info
	module string
	used   bool
	n      int
	done   map[*ast.CallExpr]bool
}

func (rw *rewriter) file(f *ast.File) {
	for _, imp := range f.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if path == "sync" {
			imp.Path.Value = strconv.Quote(rw.module + "/internal/vrt/vsync")
			if imp.Name == nil {
				imp.Name = ast.NewIdent("sync")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = rw.stmts(n.List)
		case *ast.CaseClause:
			n.Body = rw.stmts(n.Body)
		case *ast.CommClause:
			n.Body = rw.stmts(n.Body)
		case *ast.RangeStmt:
			rw.rangeStmt(n)
		case *ast.CallExpr:
			rw.call(n)
		}
		return true
	})
	if rw.used {
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("vrtInternal"),
			Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rw.module + "/internal/vrt")},
		}}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
}

func (rw *rewriter) vrt(name string) ast.Expr {
	rw.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vrtInternal"), Sel: ast.NewIdent(name)}
}

func (rw *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch x := s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			// The body of a switch or select.
			out = append(out, s)
			continue
		case *ast.GoStmt:
			if lit, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				s = &ast.ExprStmt{X: &ast.CallExpr{Fun: rw.vrt("Go"), Args: []ast.Expr{lit}}}
			}
		case *ast.ExprStmt:
			if call, ok := x.X.(*ast.CallExpr); ok && rw.isPoint(call) {
				out = append(out, s)
				continue
			}
		}
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: rw.vrt("Point")}}, s)
	}
	return out
}

func (rw *rewriter) isPoint(call *ast.CallExpr) bool {
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "vrtInternal"
}

func (rw *rewriter) rangeStmt(r *ast.RangeStmt) {
	tv, ok := rw.info.Types[r.X]
	if !ok || tv.Type == nil || r.Key == nil || r.Tok != token.DEFINE {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	rw.n++
	e := ast.NewIdent(fmt.Sprintf("vrtEntry%d", rw.n))
	pre := []ast.Stmt{&ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Live")}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
	}}
	var lhs, rhs []ast.Expr
	if id, ok := r.Key.(*ast.Ident); !ok || id.Name != "_" {
		lhs = append(lhs, r.Key)
		rhs = append(rhs, &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Key")})
	}
	if r.Value != nil {
		if id, ok := r.Value.(*ast.Ident); !ok || id.Name != "_" {
			lhs = append(lhs, r.Value)
			rhs = append(rhs, &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Value")}})
		}
	}
	if len(lhs) > 0 {
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	}
	r.Key, r.Value = ast.NewIdent("_"), e
	r.X = &ast.CallExpr{Fun: rw.vrt("Entries"), Args: []ast.Expr{r.X}}
	r.Body = &ast.BlockStmt{List: append(pre, &ast.BlockStmt{List: r.Body.List})}
}

// call redirects maps.Keys, maps.Values and maps.All, and shifts time.Now.
func (rw *rewriter) call(c *ast.CallExpr) {
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || len(c.Args) > 1 || rw.done[c] {
		return
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return
	}
	pkg, ok := rw.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	if pkg.Imported().Path() == "time" && sel.Sel.Name == "Now" && len(c.Args) == 0 {
		now := &ast.CallExpr{Fun: c.Fun}
		if rw.done == nil {
			rw.done = map[*ast.CallExpr]bool{}
		}
		rw.done[now] = true
		c.Fun, c.Args = rw.vrt("Clock"), []ast.Expr{now}
		return
	}
	if pkg.Imported().Path() != "maps" || len(c.Args) != 1 {
		return
	}
	switch sel.Sel.Name {
	case "Keys", "Values", "All":
		// Keep the import of maps in use.
		c.Args = []ast.Expr{&ast.CallExpr{Fun: rw.vrt("Maps" + sel.Sel.Name), Args: c.Args}}
		c.Fun = rw.vrt("Same")
		c.Args = append(c.Args, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("Keys[map[int]int]")})
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
