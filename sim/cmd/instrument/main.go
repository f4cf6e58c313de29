// Command instrument reads the Go packages of a module's working tree and writes
// instrumented copies of their files plus an overlay file for the go command.
//
// The instrumentation puts every source of nondeterminism behind the simulator
// (package simrt): a yield before every statement; goroutine creation, channel
// operations, sync and sync/atomic; map iteration order. It also generates, per
// package, a function that puts all package-level variables back to their state
// at program start, so that each simulated run starts cold.
//
// The rewriting is purely textual insertion at AST positions, so the code that
// runs is the code of the tree, whatever its shape.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	rt       = "simrt__"
	rtPath   = "verif.local/sim/simrt"
	syncPath = "verif.local/sim/simsync"
	atomPath = "verif.local/sim/simatomic"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
}

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
	Hot  bool   `json:"hot,omitempty"`
}

var sites []site

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "module directory")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		fatal("-out is required")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal("%v", err)
	}

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Imports,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listPkg
	byPath := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}

	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})
	done := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})

	overlay := map[string]string{}
	repoAbs, _ := filepath.Abs(*repo)
	// -deps lists dependencies before dependents.
	for _, p := range pkgs {
		if p.Standard || len(p.GoFiles) == 0 || !(p.Dir == repoAbs || strings.HasPrefix(p.Dir, repoAbs+"/")) {
			continue
		}
		tp := instrumentPackage(fset, p, imp, *out, overlay)
		done[p.ImportPath] = tp
	}

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instrumented %d files, %d yield sites\n", len(overlay), len(sites))
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// ---- edits ----

type edit struct {
	pos, end int
	text     string
	suffix   bool
	seq      int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	base  int // offset of file in fset
	tf    *token.File
	edits []edit
	tail  bytes.Buffer // generated functions appended to the file
}

func (f *file) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *file) ins(p token.Pos, text string) { f.add(f.off(p), f.off(p), text, false) }
func (f *file) insAfter(p token.Pos, text string) {
	f.add(f.off(p), f.off(p), text, true)
}
func (f *file) repl(from, to token.Pos, text string) { f.add(f.off(from), f.off(to), text, false) }
func (f *file) add(pos, end int, text string, suffix bool) {
	f.edits = append(f.edits, edit{pos, end, text, suffix, len(f.edits)})
}

func (f *file) sortEdits() {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.suffix != b.suffix {
			return a.suffix
		}
		if a.suffix {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
}

// render returns src[from:to] with the edits inside that range applied.
func (f *file) render(from, to int) string {
	var b strings.Builder
	cur := from
	for _, e := range f.edits {
		if e.pos < from || e.end > to {
			continue
		}
		if e.pos == from && e.suffix && e.pos != to {
			continue // belongs to what precedes the range
		}
		if e.pos == to && !e.suffix && to != len(f.src) {
			continue
		}
		if e.pos > cur {
			b.Write(f.src[cur:e.pos])
			cur = e.pos
		}
		b.WriteString(e.text)
		if e.end > cur {
			cur = e.end
		}
	}
	if cur < to {
		b.Write(f.src[cur:to])
	}
	return b.String()
}

// ---- package ----

func instrumentPackage(fset *token.FileSet, p *listPkg, imp types.Importer, out string, overlay map[string]string) *types.Package {
	var files []*file
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, &file{name: name, src: src, ast: af, tf: fset.File(af.Pos())})
		asts = append(asts, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true}
	pkg, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}

	byPos := func(pos token.Pos) *file {
		for _, f := range files {
			if f.ast.FileStart <= pos && pos <= f.ast.FileEnd {
				return f
			}
		}
		fatal("no file for position")
		return nil
	}

	initN := 0
	for _, f := range files {
		w := &walker{f: f, info: info, pkg: pkg, fset: fset, initN: &initN}
		w.file()
	}
	for _, f := range files {
		f.sortEdits()
	}

	// reset function
	var reset strings.Builder
	for _, f := range files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						fmt.Fprintf(&reset, "\t%s.Zero(&%s)\n", rt, n.Name)
					}
				}
			}
		}
	}
	for i, in := range info.InitOrder {
		names := make([]string, len(in.Lhs))
		blank := true
		for j, v := range in.Lhs {
			names[j] = v.Name()
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		f := byPos(in.Rhs.Pos())
		fmt.Fprintf(&f.tail, "\nfunc simVar%d__() { %s = %s }\n", i, strings.Join(names, ", "),
			f.render(f.off(in.Rhs.Pos()), f.off(in.Rhs.End())))
		fmt.Fprintf(&reset, "\tsimVar%d__()\n", i)
	}
	for i := 0; i < initN; i++ {
		fmt.Fprintf(&reset, "\tsimInit%d__()\n", i)
	}

	dir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	write := func(name, text string) {
		dst := filepath.Join(dir, name)
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			fatal("%v", err)
		}
		overlay[filepath.Join(p.Dir, name)] = dst
	}
	for _, f := range files {
		var b strings.Builder
		b.WriteString(buildLine(f))
		fmt.Fprintf(&b, "\n//line %s:1\n", filepath.Join(p.Dir, f.name))
		b.WriteString(f.render(0, len(f.src)))
		b.WriteString("\n")
		b.Write(f.tail.Bytes())
		fmt.Fprintf(&b, "\nvar _ = %s.Y\n", rt)
		write(f.name, b.String())
	}
	write("zz_simreset_verif.go", fmt.Sprintf(
		"//go:build go1.21\n\npackage %s\n\nimport %s %q\n\nfunc init() { %s.RegisterReset(%q, simReset__) }\n\nfunc simReset__() {\n%s}\n",
		pkg.Name(), rt, rtPath, rt, p.ImportPath, reset.String()))
	return pkg
}

// buildLine gives the build constraint of the instrumented file: the file's own
// one, and a language version that has type parameters but not the loop variable
// semantics of go1.22. The file's own line is blanked.
func buildLine(f *file) string {
	expr := "go1.21"
	for _, cg := range f.ast.Comments {
		if cg.Pos() >= f.ast.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err != nil {
					fatal("%s: %v", f.name, err)
				}
				expr = "go1.21 && (" + x.String() + ")"
				f.repl(c.Pos(), c.End(), "//")
			} else if constraint.IsPlusBuild(c.Text) {
				f.repl(c.Pos(), c.End(), "//")
			}
		}
	}
	f.sortEdits()
	return "//go:build " + expr + "\n"
}

// ---- walker ----

type walker struct {
	f     *file
	info  *types.Info
	pkg   *types.Package
	fset  *token.FileSet
	initN *int
	fn    string
	skip  map[ast.Node]bool // comm statements of select: moved as they are
}

func (w *walker) file() {
	f := w.f
	w.skip = map[ast.Node]bool{}
	f.insAfter(f.ast.Name.End(), fmt.Sprintf("; import %s %q", rt, rtPath))
	for _, is := range f.ast.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		to, name := "", ""
		switch path {
		case "sync":
			to, name = syncPath, "sync"
		case "sync/atomic":
			to, name = atomPath, "atomic"
		default:
			continue
		}
		text := strconv.Quote(to)
		if is.Name == nil {
			text = name + " " + text
		}
		f.repl(is.Path.Pos(), is.Path.End(), text)
	}
	for _, d := range f.ast.Decls {
		w.fn = "init"
		if fd, ok := d.(*ast.FuncDecl); ok {
			w.fn = fd.Name.Name
			if fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				f.repl(fd.Name.Pos(), fd.Name.End(), fmt.Sprintf("init() { simInit%d__() }; func simInit%d__", *w.initN, *w.initN))
				*w.initN++
			}
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				w.fn = types.ExprString(fd.Recv.List[0].Type) + "." + w.fn
			}
			if fd.Type.TypeParams != nil {
				continue // not expected in a go1.13 module
			}
		}
		ast.Inspect(d, w.visit)
	}
}

func (w *walker) newSite(n ast.Node) (id int, hot bool) {
	hot = w.isHot(n)
	pos := w.fset.Position(n.Pos())
	id = len(sites) + 1
	sites = append(sites, site{id, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line), w.fn, hot})
	return
}

// isHot: the statement itself (not nested statements) touches a package-level
// variable or calls into sync or sync/atomic.
func (w *walker) isHot(n ast.Node) bool {
	hot := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			return x == n
		case *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.FuncLit:
			return false
		case *ast.Ident:
			switch o := w.info.Uses[x].(type) {
			case *types.Var:
				if o.Parent() == w.pkg.Scope() || (o.Pkg() != nil && o.Pkg() != w.pkg && !o.IsField() && o.Parent() == o.Pkg().Scope()) {
					hot = true
				}
			case *types.Func:
				if o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					hot = true
				}
			}
		}
		return true
	})
	return hot
}

func (w *walker) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.DeclStmt:
			if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok != token.VAR {
				continue
			}
		}
		id, hot := w.newSite(s)
		fn := "Y"
		if hot {
			fn = "YH"
		}
		w.f.ins(s.Pos(), fmt.Sprintf("%s.%s(%d); ", rt, fn, id))
	}
}

func (w *walker) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.Defs[id]; o != nil {
			return o.Type()
		}
		if o := w.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func (w *walker) visit(n ast.Node) bool {
	f := w.f
	if n == nil {
		return true
	}
	if s, ok := n.(ast.Stmt); ok && w.skip[s] {
		if _, sel := n.(*ast.SelectStmt); !sel {
			return false
		}
	}
	switch n := n.(type) {
	case *ast.BlockStmt:
		if !w.skip[n] {
			w.stmts(n.List)
		}

	case *ast.CaseClause:
		w.stmts(n.Body)

	case *ast.CommClause:
		if n.Comm != nil {
			w.skip[n.Comm] = true
		}
		w.stmts(n.Body)

	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			id, _ := w.newSite(n)
			f.ins(n.Body.Lbrace+1, fmt.Sprintf(" %s.YH(%d); ", rt, id))
		}

	case *ast.RangeStmt:
		w.rangeStmt(n)

	case *ast.GoStmt:
		w.goStmt(n)

	case *ast.SendStmt:
		if !w.skip[n] {
			f.ins(n.Chan.Pos(), rt+".Send(")
			f.repl(n.Chan.End(), n.Value.Pos(), ")(")
			f.insAfter(n.Value.End(), ")")
		}

	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !w.skip[n] {
			fn := "Recv"
			if tv, ok := w.info.Types[n]; ok {
				if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() == 2 {
					fn = "Recv2"
				}
			}
			f.repl(n.OpPos, n.X.Pos(), rt+"."+fn+"(")
			f.insAfter(n.X.End(), ")")
		}

	case *ast.CallExpr:
		switch fun := n.Fun.(type) {
		case *ast.Ident:
			if b, ok := w.info.Uses[fun].(*types.Builtin); ok && b.Name() == "close" {
				f.repl(fun.Pos(), fun.End(), rt+".Close")
			}
		case *ast.SelectorExpr:
			w.selectorCall(n, fun)
		}

	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			w.selectStmt(s, n.Pos())
			w.skip[s] = true
		}

	case *ast.SelectStmt:
		if !w.skip[n] {
			w.selectStmt(n, n.Pos())
		}
	}
	return true
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *walker) selectorCall(n *ast.CallExpr, sel *ast.SelectorExpr) {
	f := w.f
	if t, ok := w.info.Uses[sel.Sel].(*types.TypeName); ok && t.Pkg() == types.Unsafe && len(n.Args) == 1 {
		// a variable whose address becomes an unsafe pointer gets memory of its
		// own, so that the pointer checks of the race build see its size
		if u, ok := unparen(n.Args[0]).(*ast.UnaryExpr); ok && u.Op == token.AND {
			if _, ok := unparen(u.X).(*ast.Ident); ok {
				f.ins(n.Pos(), rt+".Esc(")
				f.insAfter(n.End(), ")")
			}
		}
		return
	}
	obj, _ := w.info.Uses[sel.Sel].(*types.Func)
	if obj == nil || obj.Pkg() == nil {
		return
	}
	sig := obj.Type().(*types.Signature)
	switch obj.Pkg().Path() {
	case "reflect":
		if sig.Recv() != nil && sig.Recv().Type().String() == "reflect.Value" && len(n.Args) == 0 {
			switch obj.Name() {
			case "MapKeys":
				f.ins(n.Pos(), rt+".MapKeys(")
				f.repl(sel.X.End(), n.End(), ")")
			case "MapRange":
				f.ins(n.Pos(), rt+".NewMapIter(")
				f.repl(sel.X.End(), n.End(), ")")
			}
		}
	case "runtime":
		if obj.Name() == "Gosched" {
			f.repl(sel.Pos(), n.End(), rt+".Gosched()")
			f.tail.WriteString("\nvar _ = " + f.text(sel) + "\n")
		}
	case "time":
		if sig.Recv() == nil {
			switch obj.Name() {
			case "Sleep", "Now", "Since":
				f.repl(sel.Pos(), sel.End(), rt+".Time"+obj.Name())
				f.tail.WriteString("\nvar _ = " + f.text(sel) + "\n")
			}
		}
	}
}

func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (w *walker) rangeStmt(n *ast.RangeStmt) {
	f := w.f
	if len(n.Body.List) == 0 {
		id, _ := w.newSite(n)
		f.ins(n.Body.Lbrace+1, fmt.Sprintf(" %s.Y(%d); ", rt, id))
	}
	t := w.typeOf(n.X)
	if t == nil {
		return
	}
	kind := ""
	var key, val types.Type
	switch u := t.Underlying().(type) {
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
			return
		}
		kind, key, val = "MapRange", u.Key(), u.Elem()
	case *types.Chan:
		kind, key = "ChanRange", u.Elem()
	default:
		return
	}
	text := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return f.text(e)
	}
	k, v := text(n.Key), text(n.Value)
	if n.Tok == token.ASSIGN {
		if k != "_" && !types.Identical(w.typeOf(n.Key), key) {
			return
		}
		if v != "_" && !types.Identical(w.typeOf(n.Value), val) {
			return
		}
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if e == nil {
				continue
			}
			if _, ok := unparen(e).(*ast.IndexExpr); ok {
				return // may not be addressable
			}
		}
	}
	ptr := func(s string) string {
		if s == "_" {
			return "nil"
		}
		return "&" + s
	}
	dk, dv := "_", "_"
	if n.Tok == token.DEFINE {
		dk, dv = k, v
	}
	if kind == "ChanRange" {
		f.repl(n.For, n.X.Pos(), fmt.Sprintf("for simIt__, %s := %s.ChanRange(", dk, rt))
		f.insAfter(n.X.End(), fmt.Sprintf("); simIt__.Next(%s); ", ptr(k)))
		return
	}
	f.repl(n.For, n.X.Pos(), fmt.Sprintf("for simIt__, %s, %s := %s.MapRange(", dk, dv, rt))
	f.insAfter(n.X.End(), fmt.Sprintf("); simIt__.Next(%s, %s); ", ptr(k), ptr(v)))
}

func (w *walker) goStmt(n *ast.GoStmt) {
	f := w.f
	call := n.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		if sig, ok := w.typeOf(lit).(*types.Signature); ok && sig.Results().Len() == 0 {
			f.repl(n.Go, lit.Pos(), rt+".Go(")
			f.repl(lit.End(), call.End(), ")")
			return
		}
	}
	if tv, ok := w.info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		fatal("%s: unsupported go statement", w.fset.Position(n.Pos()))
	}
	// { simF := fun; simA0 := arg0; ...; Go(func() { simF(simA0, ...) }) }
	f.repl(n.Go, call.Fun.Pos(), "{ simF__ := ")
	prev := call.Fun.End()
	var names []string
	for i, a := range call.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			f.repl(prev, a.End(), "")
			names = append(names, f.text(a))
		} else {
			name := fmt.Sprintf("simA%d__", i)
			f.repl(prev, a.Pos(), "; "+name+" := ")
			names = append(names, name)
		}
		prev = a.End()
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	f.repl(prev, call.End(), fmt.Sprintf("; %s.Go(func() { simF__(%s%s) }) }", rt, strings.Join(names, ", "), dots))
}

// selectStmt turns a select statement into a switch over simrt.Select.
func (w *walker) selectStmt(s *ast.SelectStmt, at token.Pos) {
	f := w.f
	var decl, names strings.Builder
	def := false
	n := 0
	label := ""
	if at != s.Pos() {
		label = f.src2(at, s.Select)
	}
	for _, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			continue
		}
		name := fmt.Sprintf("simC%d__", n)
		head := fmt.Sprintf("case %d", n)
		n++
		recv := func(e ast.Expr) {
			fmt.Fprintf(&decl, "%s := %s.CaseRecv(%s); ", name, rt, f.text(unparen(e).(*ast.UnaryExpr).X))
		}
		assign := ""
		switch x := c.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&decl, "%s := %s.CaseSend(%s)(%s); ", name, rt, f.text(x.Chan), f.text(x.Value))
		case *ast.ExprStmt:
			recv(x.X)
		case *ast.AssignStmt:
			recv(x.Rhs[0])
			get := "Get"
			if len(x.Lhs) == 2 {
				get = "Get2"
			}
			assign = fmt.Sprintf(" %s %s %s.%s(); ", f.src2(x.Lhs[0].Pos(), x.Lhs[len(x.Lhs)-1].End()), x.Tok, name, get)
		}
		fmt.Fprintf(&names, ", %s", name)
		f.repl(c.Case, c.Colon+1, head+":"+assign)
	}
	f.repl(at, s.Body.Lbrace, fmt.Sprintf("{ %s%s switch %s.Select(%v%s) ", decl.String(), label, rt, def, names.String()))
	tail := "}"
	if !def {
		tail = "default: panic(\"unreachable\") }"
	}
	f.repl(s.Body.Rbrace, s.Body.Rbrace+1, tail+" }")
}

func (f *file) src2(from, to token.Pos) string { return string(f.src[f.off(from):f.off(to)]) }
