// instr rewrites the current source of /repo (and tcell's views package) so
// that every source of nondeterminism goes through the simulator, and writes a
// `go build -overlay` file. Nothing in /repo is touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path, Version string }
	Error      *struct{ Err string }
}

const modPath = "github.com/squizzling/osmindex"
const simPath = modPath + "/internal/zsim"
const viewsPath = "github.com/gdamore/tcell/views"
const viewsNew = modPath + "/internal/zviews"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

var race *bool

func main() {
	race = flag.Bool("race", false, "note the accesses that the compiler's race instrumentation does not report")
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory")
	sim := flag.String("sim", "", "directory with zsim, zmmap, harness")
	flag.Parse()

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Module,Error", "./...", "math/rand")
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	ob, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(ob))
	var order []*listPkg
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		q := p
		order = append(order, &q)
	}

	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})

	var cmds []string
	for _, p := range order {
		isRepo := p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/")
		isViews := p.ImportPath == viewsPath
		if !isRepo && !isViews {
			continue
		}
		if strings.Contains(p.ImportPath, "/internal/z") {
			die("package %s collides with the simulator's names", p.ImportPath)
		}
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
		x := &pkgX{lp: p, fset: fset, isMain: p.Name == "main", isViews: isViews}
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			x.files = append(x.files, af)
			x.names = append(x.names, f)
		}
		x.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), FakeImportC: true}
		tp, err := conf.Check(p.ImportPath, fset, x.files, x.info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		x.pkg = tp
		x.process()
		var dstDir, newName string
		switch {
		case isViews:
			dstDir = filepath.Join(*repo, "internal/zviews")
		case x.isMain:
			rel, _ := filepath.Rel(*repo, p.Dir)
			base := filepath.Base(rel)
			dstDir = filepath.Join(*repo, "internal/zcmds", base)
			newName = "zc_" + strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
					return r
				}
				return '_'
			}, base)
			cmds = append(cmds, base)
		default:
			dstDir = p.Dir
		}
		for i, af := range x.files {
			if newName != "" {
				af.Name.Name = newName
			}
			src := x.render(af, i)
			rel := strings.ReplaceAll(strings.TrimPrefix(dstDir, *repo), "/", "_")
			of := filepath.Join(*out, "src", rel+"__"+x.names[i])
			if err := os.MkdirAll(filepath.Dir(of), 0755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(of, src, 0644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(dstDir, x.names[i])] = of
		}
	}

	add := func(dir, dst string) {
		es, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, dst, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	add(filepath.Join(*sim, "zsim"), "internal/zsim")
	add(filepath.Join(*sim, "zmmap"), "internal/zmmap")
	add(filepath.Join(*sim, "harness"), "internal/zharness")

	// the copied views package makes some indirect requirements direct
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, p := range order {
		if p.Module != nil && p.Module.Version != "" && !strings.Contains(string(gm), p.Module.Path+" v") {
			gm = append(gm, fmt.Sprintf("\nrequire %s %s\n", p.Module.Path, p.Module.Version)...)
		}
	}
	if *race {
		zrt, err := filepath.Abs(filepath.Join(*sim, "zrt"))
		if err != nil {
			die("%v", err)
		}
		gm = append(gm, fmt.Sprintf("\nrequire zrt v0.0.0\nreplace zrt => %s\n", zrt)...)
	}
	gs, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	if os.WriteFile(filepath.Join(*out, "go.mod"), gm, 0644) != nil || os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0644) != nil {
		die("cannot write go.mod copy")
	}

	// command table
	sort.Strings(cmds)
	var b strings.Builder
	b.WriteString("//go:build go1.23\n\npackage main\n\nimport (\n")
	for i, c := range cmds {
		fmt.Fprintf(&b, "\tc%d %q\n", i, modPath+"/internal/zcmds/"+c)
	}
	b.WriteString(")\n\nfunc init() {\n")
	for i, c := range cmds {
		fmt.Fprintf(&b, "\tcommands[%q] = c%d.ZMain\n", c, i)
	}
	b.WriteString("}\n")
	of := filepath.Join(*out, "src", "zcommands.go")
	_ = os.MkdirAll(filepath.Dir(of), 0755)
	if err := os.WriteFile(of, []byte(b.String()), 0644); err != nil {
		die("%v", err)
	}
	overlay[filepath.Join(*repo, "internal/zharness", "zcommands.go")] = of

	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644); err != nil {
		die("%v", err)
	}
}

// ---------------------------------------------------------------- per package

type pkgX struct {
	lp      *listPkg
	fset    *token.FileSet
	files   []*ast.File
	names   []string
	info    *types.Info
	pkg     *types.Package
	isMain  bool
	isViews bool

	inits    []string
	tmp      int
	usesZ    map[*ast.File]bool
	cur      *ast.File
	fn       []ast.Node // enclosing function stack (FuncDecl / FuncLit)
	resetD   []ast.Decl
	captured map[types.Object]bool
	replaced map[ast.Expr]ast.Expr
	inHeader bool
}

func (x *pkgX) pos(n ast.Node) string { return x.fset.Position(n.Pos()).String() }

func (x *pkgX) z(name string) ast.Expr {
	x.usesZ[x.cur] = true
	return &ast.SelectorExpr{X: ast.NewIdent("zsim"), Sel: ast.NewIdent(name)}
}

func (x *pkgX) newTmp(p string) *ast.Ident {
	x.tmp++
	return ast.NewIdent(fmt.Sprintf("z%s%d", p, x.tmp))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (x *pkgX) process() {
	x.usesZ = map[*ast.File]bool{}
	// package-level variable initialisers, in dependency order, before rewriting
	type ini struct {
		lhs []*types.Var
		rhs ast.Expr
	}
	var inis []ini
	has := map[*types.Var]bool{}
	for _, io := range x.info.InitOrder {
		inis = append(inis, ini{io.Lhs, io.Rhs})
		for _, v := range io.Lhs {
			has[v] = true
		}
	}
	for _, f := range x.files {
		x.cur = f
		f.Comments = nil
		stripDocs(f)
		for i, d := range f.Decls {
			f.Decls[i] = x.decl(d)
		}
	}
	// reset function
	if len(x.files) == 0 {
		return
	}
	x.cur = x.files[0]
	// initialisers may need imports of other files: emit one reset function per file
	fileOf := func(p token.Pos) *ast.File {
		for _, f := range x.files {
			if f.FileStart <= p && p < f.FileEnd {
				return f
			}
		}
		return x.files[0]
	}
	type step struct {
		file *ast.File
		st   ast.Stmt
	}
	var steps []step
	for _, f := range x.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					// v = *new(T)
					steps = append(steps, step{f, &ast.AssignStmt{
						Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN,
						Rhs: []ast.Expr{&ast.StarExpr{X: call(ast.NewIdent("new"), vs.Type)}},
					}})
				}
			}
		}
	}
	for _, i := range inis {
		blank := true
		var lhs []ast.Expr
		for _, v := range i.lhs {
			if v.Name() != "_" {
				blank = false
			}
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if blank {
			continue
		}
		rhs := i.rhs
		if r, ok := x.replaced[rhs]; ok {
			rhs = r
		}
		steps = append(steps, step{fileOf(i.rhs.Pos()), &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}})
	}
	n := 0
	var names []string
	for _, s := range steps {
		n++
		nm := fmt.Sprintf("zreset_%d", n)
		names = append(names, nm)
		s.file.Decls = append(s.file.Decls, &ast.FuncDecl{
			Name: ast.NewIdent(nm), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{s.st}},
		})
	}
	names = append(names, x.inits...)
	if len(names) > 0 {
		x.cur = x.files[0]
		var body []ast.Stmt
		for _, nm := range names {
			body = append(body, &ast.ExprStmt{X: call(ast.NewIdent(nm))})
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
		var ib []ast.Stmt
		ib = append(ib, &ast.ExprStmt{X: call(x.z("RegisterReset"), lit)})
		x.files[0].Decls = append(x.files[0].Decls, &ast.FuncDecl{
			Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: ib},
		})
	}
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (x *pkgX) render(f *ast.File, idx int) []byte {
	// imports still needed
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	type im struct{ name, path string }
	var ims []im
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		name := ""
		if s.Name != nil {
			name = s.Name.Name
		}
		if name == "." {
			die("%s: dot import", x.pos(s))
		}
		eff := name
		if eff == "" {
			if o, ok := x.info.Implicits[s].(*types.PkgName); ok {
				eff = o.Name()
			}
		}
		switch path {
		case viewsPath:
			path = viewsNew
			name = eff
		case "github.com/edsrzf/mmap-go":
			path = modPath + "/internal/zmmap"
			name = eff
		}
		if eff != "_" && !used[eff] {
			continue
		}
		ims = append(ims, im{name, path})
	}
	if x.usesZ[f] {
		ims = append(ims, im{"zsim", simPath})
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	var b bytes.Buffer
	b.WriteString("//go:build go1.21\n\npackage " + f.Name.Name + "\n\n")
	for _, i := range ims {
		fmt.Fprintf(&b, "import %s %q\n", i.name, i.path)
	}
	b.WriteString("\n")
	for _, d := range decls {
		if err := format.Node(&b, token.NewFileSet(), clearPos(d)); err != nil {
			die("%s: print: %v", x.names[idx], err)
		}
		b.WriteString("\n\n")
	}
	return b.Bytes()
}
