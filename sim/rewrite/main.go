// Command rewrite makes the simulated copy of the program: it type-checks the
// Go packages of a source tree, and replaces every use of a source of
// nondeterminism by the simulator's counterpart.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type lpkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path string }
}

var (
	srcDir  = flag.String("src", "", "source tree (copy of the repository)")
	outDir  = flag.String("out", "", "output directory")
	overDir = flag.String("over", "", "simrt/over directory")
	copies  = flag.Int("n", 1, "number of copies")
	rootPkg = flag.String("root", "./bin/finch", "main package")
	mode    = flag.String("mode", "finch", "finch or lib")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func goList(dir string, pkgs ...string) []*lpkg {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Imports,ImportMap,Module"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list in %s: %v", dir, err)
	}
	var res []*lpkg
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &lpkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list json: %v", err)
		}
		res = append(res, p)
	}
	return res
}

// loadOverrides reads which names the simulator replaces, per import path.
func loadOverrides(dir string) map[string]map[string]string {
	res := map[string]map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, filepath.Dir(p))
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			die("%v", err)
		}
		m := res[rel]
		if m == nil {
			m = map[string]string{}
			res[rel] = m
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = "func"
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							m[s.Name.Name] = "type"
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								m[n.Name] = "var"
							}
						}
					}
				}
			}
		}
		return nil
	})
	return res
}

// pathRepl replaces whole packages.
var pathRepl = map[string]string{
	"database/sql":          "simsql/sql",
	"database/sql/driver":   "simsql/driver",
	"database/sql/internal": "simsql/sqlinternal",
	"golang.org/x/time/rate": "simsql/rate",
}

const placeholder = "SIMCOPYPLACEHOLDER"

type outPkg struct {
	p      *lpkg
	rel    string // dir below the copy
	files  map[string][]byte
	reset  []byte
	hasRst bool
}

func main() {
	flag.Parse()
	over := loadOverrides(*overDir)
	fset := token.NewFileSet()
	if *mode == "lib" {
		doLib(fset, over)
		return
	}
	pkgs := goList(*srcDir, *rootPkg)
	byPath := map[string]*lpkg{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}
	root := ""
	for _, p := range pkgs {
		if p.Module != nil && !p.Standard && p.Name == "main" {
			root = p.Module.Path
		}
	}
	if root == "" {
		die("no main package")
	}
	imp := newImporter(fset, byPath)
	var outs []*outPkg
	var resets []string
	for _, p := range pkgs { // dependency order
		if p.Module == nil || p.Module.Path != root {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, root), "/")
		rw := rewritePkg(fset, p, imp, over, root, true)
		op := &outPkg{p: p, rel: rel, files: rw}
		outs = append(outs, op)
		resets = append(resets, rel)
	}
	gover := goDirective(filepath.Join(*srcDir, "go.mod"))
	for c := 0; c < *copies; c++ {
		name := fmt.Sprintf("n%d", c)
		base := filepath.Join(*outDir, name)
		for _, op := range outs {
			d := filepath.Join(base, op.rel)
			os.MkdirAll(d, 0755)
			for f, b := range op.files {
				b = bytes.ReplaceAll(b, []byte(placeholder), []byte(name))
				write(filepath.Join(d, f), b)
			}
		}
		write(filepath.Join(base, "go.mod"), []byte("module "+name+"\n\ngo "+gover+"\n"))
		// reset of all packages, in dependency order
		var b bytes.Buffer
		b.WriteString("package simall\n\nimport (\n")
		for i, r := range resets {
			ip := name
			if r != "" {
				ip += "/" + r
			}
			fmt.Fprintf(&b, "\tp%d %q\n", i, ip)
		}
		b.WriteString(")\n\n// Reset re-initialises every package of the process.\nfunc Reset() {\n")
		for i := range resets {
			fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
		}
		b.WriteString("}\n")
		os.MkdirAll(filepath.Join(base, "simall"), 0755)
		write(filepath.Join(base, "simall", "simall.go"), b.Bytes())
	}
}

func goDirective(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "go ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "go "))
		}
	}
	return "1.20"
}

func write(f string, b []byte) {
	if err := os.WriteFile(f, b, 0644); err != nil {
		die("%v", err)
	}
}

// doLib rewrites database/sql and x/time/rate (without statement yields).
func doLib(fset *token.FileSet, over map[string]map[string]string) {
	pkgs := goList(*srcDir, "database/sql", "golang.org/x/time/rate")
	byPath := map[string]*lpkg{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}
	imp := newImporter(fset, byPath)
	for _, p := range pkgs {
		to, ok := pathRepl[p.ImportPath]
		if !ok {
			continue
		}
		files := rewritePkg(fset, p, imp, over, "\x00", false)
		d := filepath.Join(*outDir, to)
		os.MkdirAll(d, 0755)
		for f, b := range files {
			write(filepath.Join(d, f), b)
		}
	}
}

type imps struct {
	fset   *token.FileSet
	byPath map[string]*lpkg
	done   map[string]*types.Package
	gc     types.Importer
}

func newImporter(fset *token.FileSet, byPath map[string]*lpkg) *imps {
	i := &imps{fset: fset, byPath: byPath, done: map[string]*types.Package{}}
	i.gc = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	return i
}

func (i *imps) Import(path string) (*types.Package, error) {
	if p, ok := i.done[path]; ok {
		return p, nil
	}
	return i.gc.Import(path)
}

type importMapper struct {
	i *imps
	m map[string]string
}

func (m importMapper) Import(path string) (*types.Package, error) {
	if to, ok := m.m[path]; ok {
		path = to
	}
	return m.i.Import(path)
}

type varInit struct {
	fn   string
	spec *ast.ValueSpec
	val  bool
}

type pkgRW struct {
	varInit []varInit
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	over  map[string]map[string]string
	root  string
	yield bool
	// per file
	need  map[string]string // override import path -> alias
	used  map[string]bool   // names of imports still used
	tmp   int
	usesP bool
	lib   bool
	initN int
	inits []string
	litYield []bool
}

func rewritePkg(fset *token.FileSet, p *lpkg, imp *imps, over map[string]map[string]string, root string, yield bool) map[string][]byte {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: importMapper{imp, p.ImportMap}, IgnoreFuncBodies: false, Error: func(err error) {
		if te, ok := err.(types.Error); ok && te.Soft {
			return
		}
		// bodyless (linkname) functions are fine
		if strings.Contains(err.Error(), "missing function body") || strings.Contains(err.Error(), "func init must have a body") {
			return
		}
		fmt.Fprintf(os.Stderr, "rewrite: %v\n", err)
	}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if tp == nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	imp.done[p.ImportPath] = tp
	r := &pkgRW{fset: fset, info: info, pkg: tp, over: over, root: root, yield: yield, lib: !yield}
	res := map[string][]byte{}
	for i, af := range files {
		res[p.GoFiles[i]] = r.file(af)
	}
	if yield {
		res["zz_simreset.go"] = r.resetFile(files)
	}
	if yield && p.Name == "main" {
		for n, b := range res {
			b = bytes.Replace(b, []byte("package main\n"), []byte("package finchmain\n"), 1)
			res[n] = b
		}
	}
	return res
}

func (r *pkgRW) resetFile(files []*ast.File) []byte {
	// Package variables: re-run the initialisers in initialisation order. The
	// initialiser expressions live in per-variable functions generated in the
	// files themselves (they need the files' imports).
	var b bytes.Buffer
	name := files[0].Name.Name
	fmt.Fprintf(&b, "package %s\n\n// SimReset re-initialises the package.\nfunc SimReset() {\n", name)
	for _, v := range r.varInit {
		if !v.val {
			fmt.Fprintf(&b, "\t%s()\n", v.fn)
		}
	}
	called := map[string]bool{}
	for _, in := range r.info.InitOrder {
		for _, l := range in.Lhs {
			for _, v := range r.varInit {
				if !v.val || called[v.fn] {
					continue
				}
				for _, n := range v.spec.Names {
					if r.info.Defs[n] == l {
						called[v.fn] = true
						fmt.Fprintf(&b, "\t%s()\n", v.fn)
					}
				}
			}
		}
	}
	for _, f := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", f)
	}
	b.WriteString("}\n")
	return b.Bytes()
}

func (r *pkgRW) file(f *ast.File) []byte {
	r.need = map[string]string{}
	r.usesP = false
	// imports by object
	var extra []ast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.funcDecl(d)
			}
			r.fieldList(d.Recv)
			r.funcType(d.Type)
			if r.yield && d.Recv == nil && d.Name.Name == "init" {
				r.initN++
				n := fmt.Sprintf("simInit_%d_%d", len(r.inits), r.initN)
				d.Name = ast.NewIdent(n)
				r.inits = append(r.inits, n)
			}
			if r.yield && d.Recv == nil && d.Name.Name == "main" && r.pkg.Name() == "main" {
				d.Name = ast.NewIdent("Main")
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					r.fieldList(s.TypeParams)
					s.Type = r.expr(s.Type)
				case *ast.ValueSpec:
					isVar := d.Tok == token.VAR
					if s.Type != nil {
						s.Type = r.expr(s.Type)
					}
					for i := range s.Values {
						s.Values[i] = r.expr(s.Values[i])
					}
					if isVar && r.yield {
						extra = append(extra, r.resetVar(s)...)
					}
				}
			}
		}
	}
	f.Decls = append(f.Decls, extra...)
	// Bodyless functions (linkname) are dropped with their directives; calls to
	// them must not exist in what remains.
	var decls []ast.Decl
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	// which imports are still used
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Name()] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	seenImport := func(d *ast.GenDecl) {
		for _, s := range d.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			var name string
			if is.Name != nil {
				name = is.Name.Name
			} else if pn, ok := r.info.Implicits[is].(*types.PkgName); ok {
				name = pn.Name()
			}
			if name == "_" && path == "unsafe" {
				continue
			}
			if name != "_" && name != "." && !used[name] {
				continue
			}
			np := path
			if r.root != "" && (path == r.root || strings.HasPrefix(path, r.root+"/")) {
				np = placeholder + strings.TrimPrefix(path, r.root)
			} else if to, ok := pathRepl[path]; ok {
				np = to
			}
			ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}}
			if name != "" {
				ns.Name = ast.NewIdent(name)
			}
			specs = append(specs, ns)
		}
	}
	var rest []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			seenImport(g)
			continue
		}
		rest = append(rest, d)
	}
	var keys []string
	for k := range r.need {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(r.need[k]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("simrt/over/" + k)}})
	}
	if r.usesP {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt"`}})
	}
	f.Decls = rest
	f.Imports = nil
	f.Comments = nil
	f.Doc = nil
	var out bytes.Buffer
	fmt.Fprintf(&out, "package %s\n\n", f.Name.Name)
	for _, s := range specs {
		is := s.(*ast.ImportSpec)
		n := ""
		if is.Name != nil {
			n = is.Name.Name + " "
		}
		fmt.Fprintf(&out, "import %s%s\n", n, is.Path.Value)
	}
	out.WriteString("\n")
	for _, d := range f.Decls {
		stripPos(d)
		if err := printer.Fprint(&out, token.NewFileSet(), d); err != nil {
			die("print %s: %v", r.fset.Position(f.Pos()).Filename, err)
		}
		out.WriteString("\n\n")
	}
	return out.Bytes()
}

// resetVar makes a function that re-initialises the variables of a spec.
func (r *pkgRW) resetVar(s *ast.ValueSpec) []ast.Decl {
	if len(s.Values) > 0 {
		for _, v := range s.Values {
			if c, ok := v.(*ast.CallExpr); ok {
				if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
					if id, ok := sel.X.(*ast.Ident); ok && id.Name == "regexp" {
						return nil // immutable
					}
				}
			}
		}
	}
	allBlank := true
	for _, n := range s.Names {
		if n.Name != "_" {
			allBlank = false
		}
	}
	if allBlank {
		return nil
	}
	r.initN++
	// Order: package variables are initialised in InitOrder; approximating it by
	// declaration order inside dependency order would be wrong for forward
	// references, so record and sort below by types' InitOrder.
	n := fmt.Sprintf("simVar_%s_%d", s.Names[0].Name, r.initN)
	var body []ast.Stmt
	if len(s.Values) > 0 {
		var lhs []ast.Expr
		for _, x := range s.Names {
			lhs = append(lhs, ast.NewIdent(x.Name))
		}
		var rhs []ast.Expr
		rhs = append(rhs, s.Values...)
		body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs})
	} else {
		for _, x := range s.Names {
			if x.Name == "_" {
				continue
			}
			// { var z T; x = z }
			body = append(body, &ast.BlockStmt{List: []ast.Stmt{
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("simz")}, Type: s.Type}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(x.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("simz")}},
			}})
		}
	}
	r.varInit = append(r.varInit, varInit{n, s, len(s.Values) > 0})
	return []ast.Decl{&ast.FuncDecl{Name: ast.NewIdent(n), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}
}
