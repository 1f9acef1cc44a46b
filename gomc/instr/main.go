// instr rewrites the packages of /repo that a harness depends on into a
// `go test -overlay`, so that their concurrency goes through package zzmc.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/LogicalOverflow/music-sync"

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	TestGoFiles, XTestGoFiles []string
	Standard   bool
}

var (
	repo    = flag.String("repo", "/repo", "repository root")
	out     = flag.String("out", "", "output directory")
	rt      = flag.String("rt", "", "runtime sources")
	pkg     = flag.String("pkg", "", "harness package, relative to the repository")
	tests   = flag.String("tests", "", "comma separated harness test files")
	extra   = flag.String("extra", "", "comma separated pkg=file: additional non-test files (overlay only)")
	level   = flag.String("level", "full", "full, sync or none")
	scale   = flag.String("scale", "", "pkg:from=to,... integer literals to scale down")
	skip    = flag.String("skip", "", "comma separated packages left alone")
	only    = flag.String("only", "", "comma separated packages to instrument (default: all dependencies)")
	imports = flag.String("imports", "", "comma separated old=new import path replacements")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

var overlay = map[string]string{}

func main() {
	flag.Parse()
	replacements := map[string]string{}
	for _, r := range split(*imports) {
		kv := strings.SplitN(r, "=", 2)
		replacements[kv[0]] = kv[1]
	}
	pkgs := goList("./" + *pkg)
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	skipSet := map[string]bool{"logging": true, "ssh/parser/shell_parser": true, "testutil": true}
	for _, s := range split(*skip) {
		skipSet[s] = true
	}
	onlySet := map[string]bool{}
	for _, s := range split(*only) {
		onlySet[s] = true
	}
	for _, p := range pkgs {
		if p.ImportPath != mod && !strings.HasPrefix(p.ImportPath, mod+"/") {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		if rel == *pkg {
			for _, f := range append(append([]string{}, p.TestGoFiles...), p.XTestGoFiles...) {
				overlay[filepath.Join(p.Dir, f)] = ""
			}
		}
		if skipSet[rel] || *level == "none" || (len(onlySet) > 0 && !onlySet[rel]) {
			continue
		}
		instrument(fset, imp, p, rel, replacements)
	}
	dir := filepath.Join(*repo, *pkg)
	for i, f := range split(*tests) {
		overlay[filepath.Join(dir, fmt.Sprintf("zz_verif_%d_test.go", i))] = f
	}
	for i, f := range split(*extra) {
		kv := strings.SplitN(f, "=", 2)
		overlay[filepath.Join(*repo, kv[0], fmt.Sprintf("zz_verif_extra%d.go", i))] = kv[1]
	}
	filepath.Walk(*rt, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
			r, _ := filepath.Rel(*rt, path)
			overlay[filepath.Join(*repo, "zzmc", r)] = path
		}
		return nil
	})
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

func split(s string) []string {
	r := []string{}
	for _, p := range strings.Split(s, ",") {
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func goList(target string) []listPkg {
	args := []string{"list", "-deps", "-e"}
	if *level != "none" {
		args = append(args, "-export")
	}
	args = append(args, "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,TestGoFiles,XTestGoFiles,Standard", target)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	r := []listPkg{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			return r
		} else if err != nil {
			die("go list output: %v", err)
		}
		r = append(r, p)
	}
}

// ---- one package -------------------------------------------------------

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	rel     string
	n       int
	classes map[string]string
	order   []string
	captured map[*types.Var]bool
	taken    map[*types.Var]bool
	usesMC   bool
	full     bool
	scale    map[string]string
}

func instrument(fset *token.FileSet, imp types.Importer, p listPkg, rel string, repl map[string]string) {
	if len(p.CgoFiles) > 0 {
		return
	}
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	in := &inst{fset: fset, rel: rel, classes: map[string]string{}, captured: map[*types.Var]bool{}, taken: map[*types.Var]bool{}, full: *level == "full", scale: map[string]string{}}
	for _, s := range split(*scale) {
		a := strings.SplitN(s, ":", 2)
		kv := strings.SplitN(a[1], "=", 2)
		if a[0] == rel {
			in.scale[kv[0]] = kv[1]
		}
	}
	in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, in.info)
	if err != nil {
		die("type-checking %s: %v", rel, err)
	}
	in.pkg = tp
	for _, f := range files {
		in.analyse(f)
	}
	dir := filepath.Join(*out, strings.ReplaceAll(rel, "/", "_"))
	os.MkdirAll(dir, 0o755)
	for i, f := range files {
		name := p.GoFiles[i]
		if strings.HasSuffix(name, ".pb.go") {
			continue
		}
		in.file(f, repl)
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		if err := format.Node(&buf, fset, f); err != nil {
			die("printing %s: %v", name, err)
		}
		dst := filepath.Join(dir, name)
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(p.Dir, name)] = dst
	}
	if len(in.order) > 0 {
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "//go:build go1.21\n\npackage %s\n\nimport \"%s/zzmc\"\n\nvar (\n", tp.Name(), mod)
		for _, k := range in.order {
			fmt.Fprintf(&buf, "\t%s = zzmc.Class(%q)\n", in.classes[k], k)
		}
		buf.WriteString(")\n")
		dst := filepath.Join(dir, "zz_mc_classes.go")
		os.WriteFile(dst, buf.Bytes(), 0o644)
		overlay[filepath.Join(p.Dir, "zz_mc_classes.go")] = dst
	}
}

func (in *inst) class(name string) *ast.Ident {
	name = in.rel + ":" + name
	id, ok := in.classes[name]
	if !ok {
		id = fmt.Sprintf("zzmcC%d", len(in.classes))
		in.classes[name] = id
		in.order = append(in.order, name)
	}
	return ast.NewIdent(id)
}

// analyse finds captured and address-taken local variables.
func (in *inst) analyse(f *ast.File) {
	var walk func(n ast.Node, fn ast.Node)
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				if m != n {
					walk(m, m)
					return false
				}
			case *ast.Ident:
				v, ok := in.info.Uses[m].(*types.Var)
				if ok && !v.IsField() && v.Parent() != in.pkg.Scope() && fn != nil && v.Pkg() == in.pkg {
					if v.Pos() < fn.Pos() || v.Pos() > fn.End() {
						in.captured[v] = true
					}
				}
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					if v := in.rootVar(m.X); v != nil {
						in.taken[v] = true
					}
				}
			case *ast.SelectorExpr:
				if s := in.info.Selections[m]; s != nil && s.Kind() == types.MethodVal {
					if _, isPtr := s.Recv().Underlying().(*types.Pointer); !isPtr && ptrRecv(s) {
						if v := in.rootVar(m.X); v != nil {
							in.taken[v] = true
						}
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			walk(fd.Body, nil)
		} else if gd, ok := d.(*ast.GenDecl); ok {
			walk(gd, nil)
		}
	}
}

func ptrRecv(s *types.Selection) bool {
	f, ok := s.Obj().(*types.Func)
	if !ok {
		return false
	}
	r := f.Type().(*types.Signature).Recv()
	if r == nil {
		return false
	}
	_, p := r.Type().(*types.Pointer)
	return p
}

func (in *inst) rootVar(e ast.Expr) *types.Var {
	for {
		switch y := e.(type) {
		case *ast.ParenExpr:
			e = y.X
		case *ast.SelectorExpr:
			if s := in.info.Selections[y]; s == nil || s.Indirect() {
				return nil
			}
			e = y.X
		case *ast.IndexExpr:
			if _, ok := in.typ(y.X).Underlying().(*types.Array); !ok {
				return nil
			}
			e = y.X
		case *ast.Ident:
			v, _ := in.info.Uses[y].(*types.Var)
			return v
		default:
			return nil
		}
	}
}

func (in *inst) typ(e ast.Expr) types.Type {
	if t := in.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func mcSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("zzmc"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (in *inst) mc(name string, args ...ast.Expr) *ast.CallExpr {
	in.usesMC = true
	return call(mcSel(name), args...)
}

func (in *inst) fresh(p string) *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, in.n))
}

var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "Tick": true, "NewTicker": true, "NewTimer": true, "After": true, "AfterFunc": true, "Ticker": true, "Timer": true}
var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Cond": true, "NewCond": true, "WaitGroup": true, "Once": true, "Map": true, "Pool": true, "Locker": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}

func (in *inst) file(f *ast.File, repl map[string]string) {
	in.usesMC = false
	uses := map[string]bool{}
	blank := map[string]string{}
	// package-qualified names
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := in.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		ren := func(to string) {
			ni := ast.NewIdent(to)
			in.info.Uses[ni] = pn
			s.X = ni
			uses[to] = true
		}
		switch pn.Imported().Path() {
		case "sync":
			blank["sync"] = id.Name
			if syncNames[s.Sel.Name] {
				ren("zzmcsync")
			}
		case "sync/atomic":
			blank["sync/atomic"] = id.Name
			ren("zzmcatomic")
		case "time":
			blank["time"] = id.Name
			if timeFuncs[s.Sel.Name] {
				ren("zzmctime")
			}
		case "context":
			blank["context"] = id.Name
			if n := s.Sel.Name; n == "WithCancel" || n == "WithTimeout" || n == "WithDeadline" {
				ren("zzmccontext")
			}
		case "runtime":
			blank["runtime"] = id.Name
			if s.Sel.Name == "Gosched" {
				s.Sel = ast.NewIdent("Yield")
				s.X = ast.NewIdent("zzmc")
				in.usesMC = true
			}
		case "os":
			blank["os"] = id.Name
			if s.Sel.Name == "Exit" {
				s.X = ast.NewIdent("zzmc")
				in.usesMC = true
			}
		}
		return true
	})
	if len(in.scale) > 0 {
		ast.Inspect(f, func(n ast.Node) bool {
			if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.INT {
				if v, err := strconv.ParseInt(b.Value, 0, 64); err == nil {
					if to, ok := in.scale[fmt.Sprint(v)]; ok {
						b.Value = to
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fd.Body = in.block(fd.Body)
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i := range vs.Values {
					vs.Values[i] = in.funcLitsOnly(vs.Values[i])
				}
			}
		}
	}
	// imports
	var specs []ast.Spec
	kept := map[string]bool{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if to, ok := repl[path]; ok {
				is.Path.Value = strconv.Quote(to)
			}
			kept[path] = true
		}
	}
	add := func(name, path string) {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	if in.usesMC {
		add("zzmc", mod+"/zzmc")
	}
	for _, u := range []string{"sync", "time", "atomic", "context"} {
		if uses["zzmc"+u] {
			add("zzmc"+u, mod+"/zzmc/mc"+u)
		}
	}
	if len(specs) > 0 {
		gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
	keys := []string{}
	for k := range blank {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !kept[k] {
			continue
		}
		n := ast.NewIdent(blank[k])
		var spec *ast.ValueSpec
		switch k {
		case "sync":
			spec = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: &ast.SelectorExpr{X: n, Sel: ast.NewIdent("Locker")}}
		case "sync/atomic":
			spec = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("AddInt32")}}}
		case "time":
			spec = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("Now")}}}
		case "context":
			spec = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("Background")}}}
		case "runtime":
			spec = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("GC")}}}
		case "os":
			spec = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("Exit")}}}
		}
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{spec}})
	}
	f.Comments = nil
	clearPos(f)
}

// clearPos drops comments; positions are kept (format.Node copes).
func clearPos(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
}

// funcLitsOnly instruments function bodies inside a package-level initialiser.
func (in *inst) funcLitsOnly(e ast.Expr) ast.Expr {
	ast.Inspect(e, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			fl.Body = in.block(fl.Body)
			return false
		}
		return true
	})
	return e
}

// ---- statements --------------------------------------------------------

func (in *inst) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = in.list(b.List)
	return b
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		r = append(r, in.stmt(s)...)
	}
	return r
}

func (in *inst) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := in.stmtX(s, true)
	return r[0]
}

func (in *inst) stmt(s ast.Stmt) []ast.Stmt { return in.stmtX(s, false) }

func (in *inst) stmtX(s ast.Stmt, simpleOnly bool) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = in.rv(s.X)
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: in.mc("Send", in.rv(s.Chan), in.rv(s.Value))}}
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if e := in.opAssign(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}); e != nil {
			return []ast.Stmt{e}
		}
		s.X = in.lv(s.X)
	case *ast.AssignStmt:
		return in.assign(s, simpleOnly)
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.DeferStmt:
		if e, ok := in.rv(s.Call).(*ast.CallExpr); ok {
			s.Call = e
		}
	case *ast.ReturnStmt:
		in.rvs(s.Results)
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		s.Init = in.simple(s.Init)
		s.Cond = in.rv(s.Cond)
		in.block(s.Body)
		if s.Else != nil {
			s.Else = in.stmt(s.Else)[0]
		}
	case *ast.ForStmt:
		s.Init = in.simple(s.Init)
		if s.Cond != nil {
			s.Cond = in.rv(s.Cond)
		}
		s.Post = in.simple(s.Post)
		in.block(s.Body)
	case *ast.SwitchStmt:
		s.Init = in.simple(s.Init)
		if s.Tag != nil {
			s.Tag = in.rv(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			in.rvs(cc.List)
			cc.Body = in.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = in.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = in.rv(ta.X)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = in.rv(ta.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body)
		}
	case *ast.LabeledStmt:
		r := in.stmt(s.Stmt)
		s.Stmt = r[len(r)-1]
		r[len(r)-1] = s
		return r
	case *ast.RangeStmt:
		return in.rangeStmt(s)
	case *ast.SelectStmt:
		return in.selectStmt(s)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				in.rvs(vs.Values)
			}
		}
	}
	return []ast.Stmt{s}
}

func (in *inst) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		fl.Body = in.block(fl.Body)
		return []ast.Stmt{&ast.ExprStmt{X: in.mc("Go", fl)}}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		v := in.fresh("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return v
	}
	tv := in.info.Types[c.Fun]
	var fun ast.Expr
	if tv.IsBuiltin() || tv.IsType() {
		e := in.rv(c)
		return []ast.Stmt{&ast.ExprStmt{X: in.mc("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}}
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, isFn := in.info.Uses[id].(*types.Func); isFn {
			fun = id
		}
	}
	if fun == nil {
		fun = hoist(in.rv(c.Fun))
	}
	sig, _ := in.typ(c.Fun).Underlying().(*types.Signature)
	args := make([]ast.Expr, len(c.Args))
	multi := len(c.Args) == 1 && sig != nil && func() bool { _, t := in.typ(c.Args[0]).(*types.Tuple); return t }()
	for i, a := range c.Args {
		atv := in.info.Types[a]
		if atv.Value != nil || atv.IsNil() || multi {
			args[i] = in.rv(a)
			continue
		}
		args[i] = hoist(in.rv(a))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return append(pre, &ast.ExprStmt{X: in.mc("Go", fl)})
}

func define(l []ast.Expr, r ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *inst) rangeStmt(s *ast.RangeStmt) []ast.Stmt {
	t := in.typ(s.X).Underlying()
	switch t := t.(type) {
	case *types.Chan:
		ch := in.fresh("ch")
		ok := in.fresh("ok")
		pre := define([]ast.Expr{ch}, in.rv(s.X))
		v := ast.Expr(ast.NewIdent("_"))
		tok := token.DEFINE
		var extra []ast.Stmt
		if !isBlank(s.Key) {
			if s.Tok == token.DEFINE {
				v = s.Key
			} else {
				v = in.fresh("v")
				extra = in.assignTo(s.Key, v)
			}
		}
		recv := &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{in.mc("Recv2", ch)}}
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		body := append([]ast.Stmt{recv, brk}, extra...)
		body = append(body, in.list(s.Body.List)...)
		return []ast.Stmt{pre, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}}
	case *types.Map:
		if s.Tok == token.ASSIGN {
			break
		}
		m := in.fresh("m")
		ok := in.fresh("ok")
		pre := define([]ast.Expr{m}, in.rv(s.X))
		k := s.Key
		if isBlank(k) {
			k = in.fresh("k")
		}
		v := s.Value
		if isBlank(v) {
			v = ast.NewIdent("_")
		}
		_ = t
		get := &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}}
		cont := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
		var mx ast.Expr = m
		if in.full {
			mx = in.mc("MapR", m, in.class("map "+in.typeName(in.typ(s.X))))
		}
		body := append([]ast.Stmt{get, cont}, in.list(s.Body.List)...)
		return []ast.Stmt{pre, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: in.mc("MapKeys", mx), Body: &ast.BlockStmt{List: body}}}
	case *types.Slice:
		if !in.full || isBlank(s.Value) || s.Tok != token.DEFINE {
			break
		}
		if _, ok := s.Value.(*ast.Ident); !ok {
			break
		}
		xs := in.fresh("s")
		pre := define([]ast.Expr{xs}, in.rv(s.X))
		i := s.Key
		if isBlank(i) {
			i = in.fresh("i")
		}
		get := &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{
			&ast.StarExpr{X: in.mc("R", &ast.UnaryExpr{Op: token.AND, X: &ast.IndexExpr{X: xs, Index: i}}, in.class("elem "+in.typeName(t.Elem())))}}}
		s.Key, s.X = i, xs
		s.Body.List = append([]ast.Stmt{get}, in.list(s.Body.List)...)
		return []ast.Stmt{pre, s}
	}
	if _, ok := t.(*types.Array); ok {
		s.X = in.lv(s.X)
	} else {
		s.X = in.rv(s.X)
	}
	in.block(s.Body)
	return []ast.Stmt{s}
}

func (in *inst) selectStmt(s *ast.SelectStmt) []ast.Stmt {
	var pre []ast.Stmt
	hasDefault := false
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: in.list(cc.Body)})
			continue
		}
		z := in.fresh("c")
		var prefix []ast.Stmt
		var recv ast.Expr
		var lhs []ast.Expr
		tok := token.DEFINE
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define([]ast.Expr{z}, call(&ast.SelectorExpr{X: in.mc("SC", in.rv(m.Chan)), Sel: ast.NewIdent("Val")}, in.rv(m.Value))))
		case *ast.ExprStmt:
			recv = m.X
		case *ast.AssignStmt:
			recv, lhs, tok = m.Rhs[0], m.Lhs, m.Tok
		}
		if recv != nil {
			for {
				p, ok := recv.(*ast.ParenExpr)
				if !ok {
					break
				}
				recv = p.X
			}
			u := recv.(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{z}, in.mc("RC", in.rv(u.X))))
			vals := []string{"V", "OK"}
			for i, l := range lhs {
				if isBlank(l) {
					continue
				}
				val := &ast.SelectorExpr{X: z, Sel: ast.NewIdent(vals[i])}
				if tok == token.DEFINE {
					prefix = append(prefix, define([]ast.Expr{l}, val))
				} else {
					prefix = append(prefix, in.assignTo(l, val)...)
				}
			}
		}
		cases = append(cases, z)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(prefix, in.list(cc.Body)...)})
		idx++
	}
	d := "false"
	if hasDefault {
		d = "true"
	}
	sw.Tag = in.mc("Select", append([]ast.Expr{ast.NewIdent(d)}, cases...)...)
	return append(pre, sw)
}

// assignTo assigns the (already instrumented) value v to l.
func (in *inst) assignTo(l ast.Expr, v ast.Expr) []ast.Stmt {
	if isBlank(l) {
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}
	}
	if in.full {
		if ix, ok := unparen(l).(*ast.IndexExpr); ok {
			if _, isMap := in.typ(ix.X).Underlying().(*types.Map); isMap {
				return []ast.Stmt{&ast.ExprStmt{X: call(&ast.SelectorExpr{X: in.mc("MapP", in.rv(ix.X), in.class("map "+in.typeName(in.typ(ix.X)))), Sel: ast.NewIdent("Set")}, in.rv(ix.Index), v)}}
			}
		}
		if in.shared(l) {
			return []ast.Stmt{&ast.ExprStmt{X: in.set(l, v)}}
		}
	}
	return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{in.lv(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) set(l, v ast.Expr) ast.Expr {
	return call(&ast.SelectorExpr{X: in.mc("P", &ast.UnaryExpr{Op: token.AND, X: in.lv(l)}, in.classOf(l)), Sel: ast.NewIdent("Set")}, v)
}

func hasCall(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			f = true
		case *ast.UnaryExpr:
			if u.Op == token.ARROW {
				f = true
			}
		}
		return !f
	})
	return f
}

// clone copies simple lvalue expressions so that they can be used twice.
func (in *inst) clone(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		n := &ast.Ident{NamePos: e.NamePos, Name: e.Name}
		if o := in.info.Uses[e]; o != nil {
			in.info.Uses[n] = o
		}
		if tv, ok := in.info.Types[e]; ok {
			in.info.Types[n] = tv
		}
		return n
	case *ast.SelectorExpr:
		n := &ast.SelectorExpr{X: in.clone(e.X), Sel: e.Sel}
		if s, ok := in.info.Selections[e]; ok {
			in.info.Selections[n] = s
		}
		in.info.Types[n] = in.info.Types[e]
		return n
	case *ast.IndexExpr:
		n := &ast.IndexExpr{X: in.clone(e.X), Index: in.clone(e.Index)}
		in.info.Types[n] = in.info.Types[e]
		return n
	case *ast.StarExpr:
		n := &ast.StarExpr{X: in.clone(e.X)}
		in.info.Types[n] = in.info.Types[e]
		return n
	case *ast.ParenExpr:
		n := &ast.ParenExpr{X: in.clone(e.X)}
		in.info.Types[n] = in.info.Types[e]
		return n
	case *ast.BinaryExpr:
		n := &ast.BinaryExpr{X: in.clone(e.X), Op: e.Op, Y: in.clone(e.Y)}
		in.info.Types[n] = in.info.Types[e]
		return n
	case *ast.UnaryExpr:
		n := &ast.UnaryExpr{Op: e.Op, X: in.clone(e.X)}
		in.info.Types[n] = in.info.Types[e]
		return n
	case *ast.BasicLit:
		return e
	}
	return nil
}

// opAssign instruments l op= r; nil if l needs no instrumentation.
func (in *inst) opAssign(l ast.Expr, op token.Token, r ast.Expr) ast.Stmt {
	if !in.full || hasCall(l) || !in.shared(l) {
		return nil
	}
	c := in.clone(l)
	if c == nil {
		return nil
	}
	return &ast.ExprStmt{X: in.set(l, &ast.BinaryExpr{X: in.rv(c), Op: op, Y: &ast.ParenExpr{X: r}})}
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (in *inst) assign(s *ast.AssignStmt, simpleOnly bool) []ast.Stmt {
	if s.Tok == token.DEFINE {
		in.rvRHS(s.Rhs, len(s.Lhs))
		return []ast.Stmt{s}
	}
	if op, ok := opOf[s.Tok]; ok {
		r := in.rv(s.Rhs[0])
		if e := in.opAssign(s.Lhs[0], op, r); e != nil {
			return []ast.Stmt{e}
		}
		s.Lhs[0] = in.lv(s.Lhs[0])
		s.Rhs[0] = r
		return []ast.Stmt{s}
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		in.rvRHS(s.Rhs, 1)
		return in.assignTo(s.Lhs[0], s.Rhs[0])
	}
	need := false
	for _, l := range s.Lhs {
		if !isBlank(l) && in.full {
			if ix, ok := unparen(l).(*ast.IndexExpr); ok {
				if _, isMap := in.typ(ix.X).Underlying().(*types.Map); isMap {
					need = true
				}
			}
			if in.shared(l) {
				need = true
			}
		}
	}
	in.rvRHS(s.Rhs, len(s.Lhs))
	if !need || simpleOnly {
		for i, l := range s.Lhs {
			if !isBlank(l) {
				s.Lhs[i] = in.lv(l)
			}
		}
		return []ast.Stmt{s}
	}
	var pre, post []ast.Stmt
	if len(s.Rhs) == len(s.Lhs) {
		for i, l := range s.Lhs {
			tv := in.info.Types[s.Rhs[i]]
			v := s.Rhs[i]
			if tv.Value == nil && !tv.IsNil() {
				z := in.fresh("t")
				pre = append(pre, define([]ast.Expr{z}, v))
				v = z
			}
			post = append(post, in.assignTo(l, v)...)
		}
	} else {
		var zs []ast.Expr
		for _, l := range s.Lhs {
			if isBlank(l) {
				zs = append(zs, ast.NewIdent("_"))
				continue
			}
			z := in.fresh("t")
			zs = append(zs, z)
			post = append(post, in.assignTo(l, z)...)
		}
		pre = append(pre, define(zs, s.Rhs...))
	}
	return append(pre, post...)
}

// rvRHS instruments right-hand sides, keeping comma-ok forms.
func (in *inst) rvRHS(r []ast.Expr, nl int) {
	if len(r) == 1 && nl == 2 {
		switch e := unparen(r[0]).(type) {
		case *ast.UnaryExpr:
			if e.Op == token.ARROW {
				r[0] = in.mc("Recv2", in.rv(e.X))
				return
			}
		case *ast.TypeAssertExpr:
			e.X = in.rv(e.X)
			r[0] = e
			return
		case *ast.IndexExpr:
			r[0] = in.mapIndex(e)
			return
		}
	}
	in.rvs(r)
}

// ---- expressions -------------------------------------------------------

func (in *inst) rvs(l []ast.Expr) {
	for i := range l {
		l[i] = in.rv(l[i])
	}
}

func (in *inst) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic" || (p == mod+"/logging" && n.Obj().Name() == "Logger")
}

// shared tells whether accesses to the lvalue e are recorded.
func (in *inst) shared(e ast.Expr) bool {
	if !in.full {
		return false
	}
	if isSyncType(in.typ(e)) {
		return false
	}
	return in.sharedLoc(e)
}

func (in *inst) sharedLoc(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.sharedLoc(e.X)
	case *ast.Ident:
		v, ok := in.info.Uses[e].(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Pkg() == nil {
			return false
		}
		if v.Parent() == v.Pkg().Scope() {
			return v.Pkg().Path() == mod || strings.HasPrefix(v.Pkg().Path(), mod+"/")
		}
		return in.captured[v]
	case *ast.SelectorExpr:
		s := in.info.Selections[e]
		if s == nil { // package-qualified
			v, ok := in.info.Uses[e.Sel].(*types.Var)
			return ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), mod+"/")
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if _, ok := in.typ(e.X).Underlying().(*types.Pointer); ok {
			return true
		}
		if s.Indirect() {
			return in.addressable(e.X)
		}
		return in.sharedLoc(e.X)
	case *ast.IndexExpr:
		switch t := in.typ(e.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = t
			return in.sharedLoc(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (in *inst) addressable(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.Addressable()
}

func (in *inst) classOf(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.classOf(e.X)
	case *ast.Ident:
		v := in.info.Uses[e].(*types.Var)
		if v.Parent() == v.Pkg().Scope() {
			return in.class("var " + v.Name())
		}
		return in.class("local " + v.Name())
	case *ast.SelectorExpr:
		s := in.info.Selections[e]
		if s == nil {
			v := in.info.Uses[e.Sel].(*types.Var)
			// same class name as inside its own package
			name := strings.TrimPrefix(v.Pkg().Path(), mod+"/") + ":var " + v.Name()
			return in.rawClass(name)
		}
		t := s.Recv()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg() != in.pkg {
			return in.rawClass(strings.TrimPrefix(n.Obj().Pkg().Path(), mod+"/") + ":" + n.Obj().Name() + "." + e.Sel.Name)
		} else if ok {
			return in.class(n.Obj().Name() + "." + e.Sel.Name)
		}
		return in.class(in.typeName(t) + "." + e.Sel.Name)
	case *ast.IndexExpr, *ast.StarExpr:
		return in.class("elem " + in.typeName(in.typ(e)))
	}
	return in.class("other")
}

func (in *inst) rawClass(name string) ast.Expr {
	id, ok := in.classes[name]
	if !ok {
		id = fmt.Sprintf("zzmcC%d", len(in.classes))
		in.classes[name] = id
		in.order = append(in.order, name)
	}
	return ast.NewIdent(id)
}

// lv instruments the operands of an lvalue but not the access itself.
func (in *inst) lv(e ast.Expr) ast.Expr {
	switch y := e.(type) {
	case *ast.ParenExpr:
		y.X = in.lv(y.X)
		return y
	case *ast.Ident:
		return y
	case *ast.SelectorExpr:
		s := in.info.Selections[y]
		if s == nil {
			return y
		}
		if _, ok := in.typ(y.X).Underlying().(*types.Pointer); ok {
			y.X = in.rv(y.X)
		} else {
			y.X = in.lv(y.X)
		}
		return y
	case *ast.IndexExpr:
		mt, isMap := in.typ(y.X).Underlying().(*types.Map)
		kt := in.info.Types[y.Index]
		switch in.typ(y.X).Underlying().(type) {
		case *types.Array:
			y.X = in.lv(y.X)
		default:
			y.X = in.rv(y.X)
		}
		y.Index = in.rv(y.Index)
		if isMap && !kt.IsNil() {
			// remember the order in which keys without natural order appear
			if _, basic := mt.Key().Underlying().(*types.Basic); !basic {
				y.Index = in.mc("MapKey", y.Index)
			}
		}
		return y
	case *ast.StarExpr:
		y.X = in.rv(y.X)
		return y
	case *ast.CompositeLit:
		return in.rv(y)
	}
	return in.rv(e)
}

func (in *inst) read(e ast.Expr) ast.Expr {
	c := in.classOf(e)
	return &ast.ParenExpr{X: &ast.StarExpr{X: in.mc("R", &ast.UnaryExpr{Op: token.AND, X: in.lv(e)}, c)}}
}

func (in *inst) mapIndex(e *ast.IndexExpr) ast.Expr {
	if _, ok := in.typ(e.X).Underlying().(*types.Map); ok {
		e.X = in.rv(e.X)
		if in.full {
			e.X = in.mc("MapR", e.X, in.class("map "+in.typeName(in.typ(e.X))))
		}
		e.Index = in.rv(e.Index)
		return e
	}
	return in.rv(e)
}

func (in *inst) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := in.info.Types[e]
	if known && (tv.Value != nil || tv.IsType()) {
		return e
	}
	switch y := e.(type) {
	case *ast.Ident:
		if in.shared(y) {
			return in.read(y)
		}
		return y
	case *ast.BasicLit:
		return y
	case *ast.FuncLit:
		y.Body = in.block(y.Body)
		return y
	case *ast.CompositeLit:
		_, isMap := in.typ(y).Underlying().(*types.Map)
		for i, el := range y.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap {
					kv.Key = in.rv(kv.Key)
				}
				kv.Value = in.rv(kv.Value)
			} else {
				y.Elts[i] = in.rv(el)
			}
		}
		return y
	case *ast.ParenExpr:
		y.X = in.rv(y.X)
		return y
	case *ast.SelectorExpr:
		s := in.info.Selections[y]
		if s == nil {
			if in.shared(y) {
				return in.read(y)
			}
			return y
		}
		switch s.Kind() {
		case types.FieldVal:
			if in.shared(y) && in.addressable(y) {
				return in.read(y)
			}
			if in.addressable(y) {
				return in.lv(y)
			}
			y.X = in.rv(y.X)
			return y
		case types.MethodVal:
			if _, isPtr := in.typ(y.X).Underlying().(*types.Pointer); !isPtr && ptrRecv(s) && in.addressable(y.X) {
				y.X = in.lv(y.X)
			} else {
				y.X = in.rv(y.X)
			}
			return y
		}
		return y
	case *ast.IndexExpr:
		switch in.typ(y.X).Underlying().(type) {
		case *types.Map:
			return in.mapIndex(y)
		case *types.Slice, *types.Pointer:
			if in.shared(y) {
				return in.read(y)
			}
			return in.lv(y)
		case *types.Array:
			if in.shared(y) && in.addressable(y) {
				return in.read(y)
			}
			if in.addressable(y) {
				return in.lv(y)
			}
		case *types.Signature:
			return y
		}
		y.X = in.rv(y.X)
		y.Index = in.rv(y.Index)
		return y
	case *ast.SliceExpr:
		if _, ok := in.typ(y.X).Underlying().(*types.Array); ok {
			y.X = in.lv(y.X)
		} else {
			y.X = in.rv(y.X)
		}
		y.Low, y.High, y.Max = in.rv(y.Low), in.rv(y.High), in.rv(y.Max)
		return y
	case *ast.StarExpr:
		if in.full && !isSyncType(in.typ(y)) {
			return in.read(y)
		}
		y.X = in.rv(y.X)
		return y
	case *ast.UnaryExpr:
		switch y.Op {
		case token.AND:
			if _, ok := unparen(y.X).(*ast.CompositeLit); ok {
				y.X = in.rv(y.X)
			} else {
				y.X = in.lv(y.X)
			}
			return y
		case token.ARROW:
			return in.mc("Recv", in.rv(y.X))
		}
		y.X = in.rv(y.X)
		return y
	case *ast.BinaryExpr:
		y.X, y.Y = in.rv(y.X), in.rv(y.Y)
		return y
	case *ast.TypeAssertExpr:
		y.X = in.rv(y.X)
		return y
	case *ast.KeyValueExpr:
		y.Value = in.rv(y.Value)
		return y
	case *ast.CallExpr:
		return in.callExpr(y)
	}
	return e
}

func (in *inst) callExpr(y *ast.CallExpr) ast.Expr {
	ftv := in.info.Types[y.Fun]
	if ftv.IsType() {
		in.rvs(y.Args)
		return y
	}
	if ftv.IsBuiltin() {
		name := ""
		if id, ok := unparen(y.Fun).(*ast.Ident); ok {
			name = id.Name
		}
		switch name {
		case "len", "cap":
			if c, ok := in.typ(y.Args[0]).Underlying().(*types.Chan); ok && name == "len" {
				f := "Len"
				switch c.Dir() {
				case types.RecvOnly:
					f = "LenR"
				case types.SendOnly:
					f = "LenS"
				}
				return in.mc(f, in.rv(y.Args[0]))
			}
			if m, ok := in.typ(y.Args[0]).Underlying().(*types.Map); ok && in.full {
				_ = m
				c := in.class("map " + in.typeName(in.typ(y.Args[0])))
				y.Args[0] = in.mc("MapR", in.rv(y.Args[0]), c)
				return y
			}
		case "close":
			return in.mc("Close", in.rv(y.Args[0]))
		case "delete":
			if in.full {
				c := in.class("map " + in.typeName(in.typ(y.Args[0])))
				y.Args[1] = in.rv(y.Args[1])
				y.Args[0] = in.mc("MapW", in.rv(y.Args[0]), c)
				return y
			}
		case "copy":
			if st, ok := in.typ(y.Args[1]).Underlying().(*types.Slice); ok && in.full {
				c := in.class("elem " + in.typeName(st.Elem()))
				return in.mc("Copy", in.rv(y.Args[0]), in.rv(y.Args[1]), c)
			}
		case "make", "new":
			for i := 1; i < len(y.Args); i++ {
				y.Args[i] = in.rv(y.Args[i])
			}
			return y
		}
		in.rvs(y.Args)
		return y
	}
	y.Fun = in.rv(y.Fun)
	in.rvs(y.Args)
	return y
}
