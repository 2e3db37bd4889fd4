// Command simgo translates Go packages so that they run on the simulated
// runtime simrt: channel operations, select, go statements, map iteration and
// memory accesses call simrt, and the packages sync, time, os, ... are replaced
// by their simulated counterparts under simshim. Everything else is copied
// verbatim, so what runs is the code under test itself.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Export     string
	Deps       []string
}

// shims lists the standard packages that are replaced.
var shims = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context",
	"os": "os", "io/ioutil": "ioutil", "crypto/rand": "rand", "math/rand": "rand",
	"math/rand/v2": "rand", "runtime": "runtime", "path/filepath": "filepath",
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgo: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	gopath := flag.String("gopath", "", "GOPATH holding the originals")
	root := flag.String("root", "", "root import path")
	out := flag.String("out", "", "output GOPATH")
	skip := flag.String("skip", "/test", "import path suffixes (below root) to skip, comma separated")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = filepath.Join(*gopath, "src", *root)
	cmd.Env = append(os.Environ(), "GOPATH="+*gopath)
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(o)))
	var all []*listPkg
	exports := map[string]string{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Standard {
			exports[p.ImportPath] = p.Export
			continue
		}
		drop := false
		for _, s := range strings.Split(*skip, ",") {
			if s != "" && (p.ImportPath == *root+s || strings.HasPrefix(p.ImportPath, *root+s+"/")) {
				drop = true
			}
		}
		if !drop && p.Name != "main" {
			all = append(all, p)
		}
	}
	// Only what the packages of the repository itself need.
	need := map[string]bool{}
	for _, p := range all {
		if !strings.Contains(p.ImportPath, "/vendor/") {
			need[p.ImportPath] = true
			for _, d := range p.Deps {
				need[d] = true
			}
		}
	}
	kept := all[:0]
	for _, p := range all {
		if need[p.ImportPath] {
			kept = append(kept, p)
		}
	}
	all = kept
	fset := token.NewFileSet()
	std := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	t := &world{fset: fset, std: std, pkgs: map[string]*pkg{}, root: *root}
	for _, lp := range all { // go list -deps orders dependencies first
		t.load(lp)
	}
	t.findKeys()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	base := uint32(1)
	for _, lp := range all {
		base = t.pkgs[lp.ImportPath].emit(filepath.Join(*out, "src", lp.ImportPath), base)
	}
	fmt.Printf("translated %d packages, %d access sites\n", len(all), base-1)
}

type world struct {
	fset *token.FileSet
	std  types.Importer
	pkgs map[string]*pkg
	root string
	keyT []types.Type // key types of maps
}

type pkg struct {
	w        *world
	lp       *listPkg
	files    []*ast.File
	srcs     map[*ast.File][]byte
	names    map[*ast.File]string
	info     *types.Info
	tpkg     *types.Package
	src      []byte
	file     *token.File
	base     uint32
	sites    []string
	captured map[types.Object]bool
	tmp      int
	inits    int
}

type imp struct {
	w  *world
	lp *listPkg
}

func (i imp) Import(path string) (*types.Package, error) {
	if m := i.lp.ImportMap[path]; m != "" {
		path = m
	}
	if p := i.w.pkgs[path]; p != nil {
		return p.tpkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.w.std.Import(path)
}

func (w *world) load(lp *listPkg) {
	if len(lp.CgoFiles) > 0 || len(lp.SFiles) > 0 {
		die("%s uses cgo or assembly", lp.ImportPath)
	}
	p := &pkg{w: w, lp: lp, srcs: map[*ast.File][]byte{}, names: map[*ast.File]string{}, captured: map[types.Object]bool{}}
	for _, f := range lp.GoFiles {
		b, err := os.ReadFile(filepath.Join(lp.Dir, f))
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(w.fset, filepath.Join(lp.ImportPath, f), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, a)
		p.srcs[a] = b
		p.names[a] = f
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp{w, lp}, Error: func(err error) { die("type check: %v", err) }}
	tp, err := conf.Check(lp.ImportPath, w.fset, p.files, p.info)
	if err != nil {
		die("type check: %v", err)
	}
	p.tpkg = tp
	w.pkgs[lp.ImportPath] = p
	for _, f := range p.files {
		p.findCaptured(f)
	}
}

func (p *pkg) findCaptured(f *ast.File) {
	var lits []*ast.FuncLit
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				lits = append(lits, x)
				walk(x)
				lits = lits[:len(lits)-1]
				return false
			case *ast.Ident:
				v, ok := p.info.Uses[x].(*types.Var)
				if !ok || v.IsField() || v.Pkg() != p.tpkg || v.Parent() == p.tpkg.Scope() {
					return true
				}
				for _, l := range lits {
					if v.Pos() < l.Pos() || v.Pos() >= l.End() {
						p.captured[v] = true
					}
				}
			}
			return true
		})
	}
	walk(f)
}

func (w *world) findKeys() {
	seen := map[string]bool{}
	for _, p := range w.pkgs {
		for _, tv := range p.info.Types {
			if tv.Type == nil {
				continue
			}
			m, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				continue
			}
			switch m.Key().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Struct, *types.Array:
				s := types.TypeString(m.Key(), nil)
				if !seen[s] {
					seen[s] = true
					w.keyT = append(w.keyT, m.Key())
				}
			}
		}
	}
}

// mayBeKey reports whether a pointer to t may be (part of) a map key.
func (w *world) mayBeKey(t types.Type) bool {
	pt := types.NewPointer(t)
	for _, k := range w.keyT {
		switch u := k.Underlying().(type) {
		case *types.Pointer:
			if types.Identical(k, pt) || types.Identical(u, pt) {
				return true
			}
		case *types.Interface:
			if types.Implements(pt, u) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- output

func (p *pkg) emit(dir string, base uint32) uint32 {
	p.base = base
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	type reset struct {
		order int
		text  string
	}
	used := map[string]bool{}
	for _, f := range p.files {
		p.src = p.srcs[f]
		p.file = p.w.fset.File(f.Pos())
		var b strings.Builder
		pos := f.FileStart
		cut := func(to token.Pos) { b.WriteString(p.raw(pos, to)); pos = to }
		cut(f.Name.End())
		b.WriteString("; import simrt \"simrt\"")
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					for _, s := range x.Specs {
						is := s.(*ast.ImportSpec)
						path := strings.Trim(is.Path.Value, "\"`")
						name, ok := shims[path]
						if !ok {
							continue
						}
						cut(is.Path.Pos())
						if is.Name == nil {
							b.WriteString(name + " ")
						}
						b.WriteString("\"simshim/" + path + "\"")
						pos = is.Path.End()
					}
					continue
				}
				cut(x.Pos())
				b.WriteString(p.node(x))
				pos = x.End()
			case *ast.FuncDecl:
				if x.Body == nil {
					die("%s: function without body", p.pos(x.Pos()))
				}
				if x.Recv == nil && x.Name.Name == "init" {
					cut(x.Name.Pos())
					fmt.Fprintf(&b, "simrtInit%d", p.inits)
					p.inits++
					pos = x.Name.End()
				}
				cut(x.Body.Pos())
				b.WriteString(p.node(x.Body))
				pos = x.Body.End()
			}
		}
		cut(f.FileEnd)
		b.WriteString("\nvar _ = simrt.Tick\n")
		name := p.names[f]
		used[name] = true
		p.write(filepath.Join(dir, name), b.String())
	}
	// Registration file: access sites and package state reset.
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport simrt \"simrt\"\n\n", p.tpkg.Name())
	imports := map[string]string{}
	var body strings.Builder
	inited := map[*types.Var]bool{}
	for _, i := range p.info.InitOrder {
		for _, v := range i.Lhs {
			inited[v] = true
		}
	}
	scope := p.tpkg.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !inited[v] {
			fmt.Fprintf(&body, "\tsimrt.Zero(&%s)\n", n)
		}
	}
	for k, i := range p.info.InitOrder {
		var lhs []string
		for _, v := range i.Lhs {
			lhs = append(lhs, v.Name())
		}
		fmt.Fprintf(&body, "\tsimrtVar%d()\n", k)
		_ = lhs
	}
	for i := 0; i < p.inits; i++ {
		fmt.Fprintf(&body, "\tsimrtInit%d()\n", i)
	}
	_ = imports
	fmt.Fprintf(&b, "func simrtReset() {\n%s}\n\n", body.String())
	fmt.Fprintf(&b, "func init() {\n")
	for i := 0; i < p.inits; i++ {
		fmt.Fprintf(&b, "\tsimrtInit%d()\n", i)
	}
	fmt.Fprintf(&b, "\tsimrt.RegisterReset(simrtReset)\n\tsimrt.RegisterSites(%d, []string{\n", p.base)
	// The initialisers must be rendered into their own files (imports), so the
	// sites are complete only after the loop below.
	var extra = map[*ast.File]*strings.Builder{}
	for k, i := range p.info.InitOrder {
		var f *ast.File
		for _, x := range p.files {
			if x.FileStart <= i.Rhs.Pos() && i.Rhs.Pos() < x.FileEnd {
				f = x
			}
		}
		p.src = p.srcs[f]
		p.file = p.w.fset.File(f.Pos())
		if extra[f] == nil {
			extra[f] = &strings.Builder{}
		}
		var lhs []string
		blank := true
		for _, v := range i.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			fmt.Fprintf(extra[f], "func simrtVar%d() {}\n", k)
			continue
		}
		fmt.Fprintf(extra[f], "func simrtVar%d() { %s = %s }\n", k, strings.Join(lhs, ", "), p.rhs(i.Rhs, len(lhs)))
	}
	for f, e := range extra {
		fn := filepath.Join(dir, p.names[f])
		old, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		p.write(fn, string(old)+e.String())
	}
	for _, s := range p.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	p.write(filepath.Join(dir, "zz_simrt_sites.go"), b.String())
	return p.base + uint32(len(p.sites))
}

func (p *pkg) write(name, text string) {
	if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
		die("%v", err)
	}
}

func (p *pkg) raw(a, b token.Pos) string {
	return string(p.src[p.file.Offset(a):p.file.Offset(b)])
}

func (p *pkg) rawN(n ast.Node) string { return p.raw(n.Pos(), n.End()) }

func (p *pkg) pos(a token.Pos) string {
	x := p.w.fset.Position(a)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, p.w.root+"/"), x.Line)
}

func (p *pkg) line(a token.Pos) string {
	x := p.w.fset.Position(a)
	return fmt.Sprintf("/*line %s:%d:%d*/", filepath.Base(x.Filename), x.Line, x.Column)
}

func (p *pkg) site(n ast.Node) string {
	s := p.pos(n.Pos()) + " " + clip(p.rawN(n))
	p.sites = append(p.sites, s)
	return fmt.Sprint(p.base + uint32(len(p.sites)) - 1)
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func (p *pkg) temp() string { p.tmp++; return fmt.Sprintf("simrtT%d", p.tmp) }

// ---------------------------------------------------------------- rendering

// children returns the direct child nodes in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	depth := 0
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			depth--
			return false
		}
		if depth == 0 {
			depth++
			return true
		}
		switch c.(type) {
		case *ast.Comment, *ast.CommentGroup:
			return false
		}
		out = append(out, c)
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// splice copies n's source with the given children rendered by f.
func (p *pkg) splice(n ast.Node, f func(c ast.Node) string) string {
	var b strings.Builder
	pos := n.Pos()
	for _, c := range children(n) {
		if c.Pos() < pos || c.End() > n.End() {
			continue
		}
		b.WriteString(p.raw(pos, c.Pos()))
		b.WriteString(f(c))
		pos = c.End()
	}
	b.WriteString(p.raw(pos, n.End()))
	return b.String()
}

// node renders any node in value/statement position.
func (p *pkg) node(n ast.Node) string {
	switch x := n.(type) {
	case ast.Expr:
		return p.val(x)
	case *ast.BlockStmt:
		return p.splice(x, func(c ast.Node) string { return p.stmt(c.(ast.Stmt), true) })
	case ast.Stmt:
		return p.stmt(x, true)
	case *ast.ValueSpec:
		return p.splice(x, func(c ast.Node) string {
			for _, v := range x.Values {
				if c == v {
					return p.rhs(v, len(x.Names))
				}
			}
			return p.rawN(c)
		})
	case *ast.GenDecl:
		if x.Tok != token.VAR {
			return p.rawN(x)
		}
		return p.splice(x, p.node)
	}
	return p.rawN(n)
}

func unparen(e ast.Expr) ast.Expr { return ast.Unparen(e) }

// rhs renders a right-hand side that provides n values.
func (p *pkg) rhs(e ast.Expr, n int) string {
	if n == 2 {
		if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return "simrt.Recv2(" + p.val(u.X) + ")"
		}
	}
	return p.val(e)
}

func (p *pkg) typeOf(e ast.Expr) types.Type {
	if tv, ok := p.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := p.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func (p *pkg) addressable(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		_, ok := p.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if s := p.info.Selections[x]; s != nil {
			if s.Kind() != types.FieldVal {
				return false
			}
			return isPtr(p.typeOf(x.X)) || p.addressable(x.X)
		}
		_, ok := p.info.Uses[x.Sel].(*types.Var)
		return ok
	case *ast.IndexExpr:
		switch under(p.typeOf(x.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return p.addressable(x.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

func syncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		_, isI := n.Underlying().(*types.Interface)
		return !isI
	}
	return false
}

// tracked reports whether accesses to e are recorded.
func (p *pkg) tracked(e ast.Expr) bool {
	tv, ok := p.info.Types[e]
	if ok && (tv.Value != nil || tv.IsType() || tv.IsBuiltin() || tv.IsNil()) {
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := p.info.ObjectOf(x).(*types.Var)
		if !ok || v.Name() == "_" || syncType(v.Type()) {
			return false
		}
		return v.Pkg() != nil && v.Parent() == v.Pkg().Scope() || p.captured[v]
	case *ast.SelectorExpr:
		if s := p.info.Selections[x]; s != nil {
			return s.Kind() == types.FieldVal && p.addressable(x) && !syncType(s.Type())
		}
		v, ok := p.info.Uses[x.Sel].(*types.Var)
		return ok && v.Pkg() != nil && p.w.pkgs[v.Pkg().Path()] != nil && !syncType(v.Type())
	case *ast.IndexExpr:
		var el types.Type
		switch u := under(p.typeOf(x.X)).(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Array:
			el = u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				el = a.Elem()
			}
		}
		if el == nil || !p.addressable(x) || syncType(el) {
			return false
		}
		if b, ok := el.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
			return false
		}
		return true
	case *ast.StarExpr:
		return ok && !syncType(tv.Type)
	}
	return false
}

// addr renders e as an operand whose address is taken or that is selected
// from, without recording an access to e itself.
func (p *pkg) addr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + p.addr(x.X) + ")"
	case *ast.Ident:
		return p.rawN(x)
	case *ast.SelectorExpr:
		s := p.info.Selections[x]
		if s == nil || s.Kind() == types.MethodExpr {
			return p.rawN(x)
		}
		if s.Kind() == types.MethodVal {
			return p.recv(x, s) + p.raw(x.X.End(), x.Sel.Pos()) + x.Sel.Name
		}
		return p.base0(x.X) + p.raw(x.X.End(), x.Sel.Pos()) + x.Sel.Name
	case *ast.IndexExpr:
		tv := p.info.Types[x.X]
		if tv.IsType() {
			return p.rawN(x)
		}
		switch u := under(tv.Type).(type) {
		case *types.Signature:
			return p.val(x.X) + p.raw(x.X.End(), x.End())
		case *types.Map:
			return "simrt.MapR(" + p.val(x.X) + ", " + p.site(x) + ")[" + p.val(x.Index) + "]"
		case *types.Array:
			_ = u
			return p.addr(x.X) + "[" + p.val(x.Index) + "]"
		}
		return p.val(x.X) + "[" + p.val(x.Index) + "]"
	case *ast.StarExpr:
		if p.info.Types[x].IsType() {
			return p.rawN(x)
		}
		return "(*" + p.val(x.X) + ")"
	}
	return p.val(e)
}

// base0 renders the operand of a field selector.
func (p *pkg) base0(e ast.Expr) string {
	if isPtr(p.typeOf(e)) {
		return p.val(e)
	}
	return p.addr(e)
}

// recv renders the receiver operand of a method value or call.
func (p *pkg) recv(x *ast.SelectorExpr, s *types.Selection) string {
	t := p.typeOf(x.X)
	if isPtr(t) || types.IsInterface(t) {
		return p.val(x.X)
	}
	sig, ok := s.Obj().Type().(*types.Signature)
	if ok && sig.Recv() != nil && isPtr(sig.Recv().Type()) {
		return p.addr(x.X)
	}
	if len(s.Index()) > 1 {
		return p.addr(x.X)
	}
	return p.val(x.X)
}

func (p *pkg) val(e ast.Expr) string {
	if e == nil {
		return ""
	}
	if tv, ok := p.info.Types[e]; ok {
		if tv.Value != nil || tv.IsType() || tv.IsNil() {
			return p.rawN(e)
		}
	}
	switch x := e.(type) {
	case *ast.BasicLit:
		return p.rawN(x)
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if p.tracked(e) {
			if st, ok := e.(*ast.StarExpr); ok {
				return "(*simrt.Rd(" + p.val(st.X) + ", " + p.site(e) + "))"
			}
			return "(*simrt.Rd(&" + p.addr(e) + ", " + p.site(e) + "))"
		}
		return p.addr(e)
	case *ast.IndexListExpr:
		return p.rawN(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return "simrt.Recv(" + p.val(x.X) + ")"
		case token.AND:
			if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
				s := "&" + p.val(cl)
				if p.w.mayBeKey(p.typeOf(cl)) {
					return "simrt.Alloc(" + s + ")"
				}
				return s
			}
			return "&" + p.addr(x.X)
		}
	case *ast.CallExpr:
		return p.call(x)
	case *ast.FuncLit:
		return p.raw(x.Pos(), x.Body.Pos()) + p.node(x.Body)
	case *ast.CompositeLit:
		isStruct := false
		t := under(p.typeOf(x))
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		if _, ok := t.(*types.Struct); ok {
			isStruct = true
		}
		return p.splice(x, func(c ast.Node) string {
			if c == x.Type {
				return p.rawN(c)
			}
			if kv, ok := c.(*ast.KeyValueExpr); ok {
				if isStruct {
					return p.raw(kv.Pos(), kv.Value.Pos()) + p.val(kv.Value)
				}
				return p.splice(kv, func(d ast.Node) string { return p.val(d.(ast.Expr)) })
			}
			return p.val(c.(ast.Expr))
		})
	case *ast.SliceExpr:
		return p.splice(x, func(c ast.Node) string {
			if c == x.X {
				if _, ok := under(p.typeOf(x.X)).(*types.Array); ok {
					return p.addr(x.X)
				}
			}
			return p.val(c.(ast.Expr))
		})
	case *ast.TypeAssertExpr:
		return p.splice(x, func(c ast.Node) string {
			if c == x.X {
				return p.val(x.X)
			}
			return p.rawN(c)
		})
	}
	return p.splice(e, func(c ast.Node) string {
		if ce, ok := c.(ast.Expr); ok {
			return p.val(ce)
		}
		return p.rawN(c)
	})
}

func (p *pkg) args(x *ast.CallExpr) string {
	var b strings.Builder
	pos := x.Lparen
	for _, a := range x.Args {
		b.WriteString(p.raw(pos, a.Pos()))
		b.WriteString(p.val(a))
		pos = a.End()
	}
	b.WriteString(p.raw(pos, x.End()))
	return b.String()
}

func (p *pkg) call(x *ast.CallExpr) string {
	tv := p.info.Types[x.Fun]
	if tv.IsType() {
		return p.rawN(x.Fun) + p.args(x)
	}
	if tv.IsBuiltin() {
		name := ""
		switch f := unparen(x.Fun).(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr: // unsafe.X
			return p.rawN(x)
		}
		switch name {
		case "close":
			return "simrt.Close(" + p.val(x.Args[0]) + ")"
		case "len":
			switch u := under(p.typeOf(x.Args[0])).(type) {
			case *types.Chan:
				if u.Dir() == types.SendOnly {
					return "simrt.LenS(" + p.val(x.Args[0]) + ")"
				}
				return "simrt.Len(" + p.val(x.Args[0]) + ")"
			case *types.Map:
				return "len(simrt.MapR(" + p.val(x.Args[0]) + ", " + p.site(x) + "))"
			case *types.Array:
				return "len(" + p.addr(x.Args[0]) + ")"
			}
		case "delete", "clear":
			if _, ok := under(p.typeOf(x.Args[0])).(*types.Map); ok {
				s := name + "(simrt.MapW(" + p.val(x.Args[0]) + ", " + p.site(x) + ")"
				if len(x.Args) > 1 {
					s += ", " + p.val(x.Args[1])
				}
				return s + ")"
			}
		case "new":
			t := p.typeOf(x.Args[0])
			if p.info.Types[x.Args[0]].IsType() {
				if p.w.mayBeKey(t) {
					return "simrt.Alloc(" + p.rawN(x) + ")"
				}
				return p.rawN(x)
			}
		case "make":
			return p.rawN(x.Fun) + p.args(x)
		case "recover", "panic", "append", "copy", "cap", "min", "max", "print", "println", "complex", "real", "imag":
		}
		return p.rawN(x.Fun) + p.args(x)
	}
	return p.val(x.Fun) + p.args(x)
}

// hasCall reports whether evaluating e can run other code or block.
func (p *pkg) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			tv := p.info.Types[x.Fun]
			if !tv.IsType() && !tv.IsBuiltin() {
				found = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return found
}

func (p *pkg) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	_, ok = under(p.typeOf(x.X)).(*types.Map)
	return x, ok
}

// ptr renders &e for a tracked lvalue.
func (p *pkg) ptr(e ast.Expr) string {
	e = unparen(e)
	if st, ok := e.(*ast.StarExpr); ok {
		return p.val(st.X)
	}
	return "&" + p.addr(e)
}

// store renders the assignment of an already evaluated value to an lvalue.
func (p *pkg) store(l ast.Expr, v string) string {
	l = unparen(l)
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return "_ = " + v
	}
	if m, ok := p.isMapIndex(l); ok {
		return "simrt.MapSet(" + p.val(m.X) + ", " + p.site(m) + ")(" + p.val(m.Index) + ", " + v + ")"
	}
	if p.tracked(l) {
		return "simrt.Set(" + p.ptr(l) + ", " + p.site(l) + ")(" + v + ")"
	}
	return p.addr(l) + " = " + v
}

// lhs renders an lvalue in place, recording the access early.
func (p *pkg) lhs(l ast.Expr) string {
	l = unparen(l)
	if m, ok := p.isMapIndex(l); ok {
		return "simrt.MapW(" + p.val(m.X) + ", " + p.site(m) + ")[" + p.val(m.Index) + "]"
	}
	if p.tracked(l) {
		return "*simrt.Wr(" + p.ptr(l) + ", " + p.site(l) + ")"
	}
	return p.addr(l)
}

func (p *pkg) special(l ast.Expr) bool {
	l = unparen(l)
	if _, ok := p.isMapIndex(l); ok {
		return true
	}
	return p.tracked(l)
}

func (p *pkg) assign(x *ast.AssignStmt, list bool) string {
	if x.Tok == token.DEFINE {
		var b strings.Builder
		pos := x.Pos()
		for _, r := range x.Rhs {
			b.WriteString(p.raw(pos, r.Pos()))
			if len(x.Rhs) == 1 {
				b.WriteString(p.rhs(r, len(x.Lhs)))
			} else {
				b.WriteString(p.val(r))
			}
			pos = r.End()
		}
		b.WriteString(p.raw(pos, x.End()))
		if list {
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && p.info.Defs[id] == nil && p.info.Uses[id] != nil && p.tracked(id) {
					b.WriteString("; simrt.Wr(&" + id.Name + ", " + p.site(id) + ")")
				}
			}
		}
		return b.String()
	}
	if x.Tok != token.ASSIGN { // op=
		l := unparen(x.Lhs[0])
		op := strings.TrimSuffix(x.Tok.String(), "=")
		if m, ok := p.isMapIndex(l); ok {
			return "simrt.MapW(" + p.val(m.X) + ", " + p.site(m) + ")[" + p.val(m.Index) + "] " + x.Tok.String() + " " + p.val(x.Rhs[0])
		}
		if !p.tracked(l) {
			return p.addr(l) + p.raw(x.Lhs[0].End(), x.Rhs[0].Pos()) + p.val(x.Rhs[0])
		}
		if p.hasCall(l) {
			if !list {
				return p.lhs(l) + " " + x.Tok.String() + " " + p.val(x.Rhs[0])
			}
			t := p.temp()
			return "{ " + t + " := " + p.ptr(l) + "; simrt.Set(" + t + ", " + p.site(l) + ")(*simrt.Rd(" + t + ", " + p.site(l) + ") " + op + " (" + p.val(x.Rhs[0]) + ")) }"
		}
		return "simrt.Set(" + p.ptr(l) + ", " + p.site(l) + ")(*simrt.Rd(" + p.ptr(l) + ", " + p.site(l) + ") " + op + " (" + p.val(x.Rhs[0]) + "))"
	}
	any := false
	for _, l := range x.Lhs {
		if p.special(l) {
			any = true
		}
	}
	if len(x.Lhs) == 1 {
		if any {
			return p.store(x.Lhs[0], p.val(x.Rhs[0]))
		}
		return p.addr(x.Lhs[0]) + p.raw(x.Lhs[0].End(), x.Rhs[0].Pos()) + p.val(x.Rhs[0])
	}
	calls := false
	for _, r := range x.Rhs {
		if p.hasCall(r) {
			calls = true
		}
	}
	if !any || !calls || !list {
		var ls []string
		for _, l := range x.Lhs {
			ls = append(ls, p.lhs(l))
		}
		var rs []string
		for _, r := range x.Rhs {
			if len(x.Rhs) == 1 {
				rs = append(rs, p.rhs(r, len(x.Lhs)))
			} else {
				rs = append(rs, p.val(r))
			}
		}
		return strings.Join(ls, ", ") + " = " + strings.Join(rs, ", ")
	}
	var ts []string
	for range x.Lhs {
		ts = append(ts, p.temp())
	}
	var b strings.Builder
	b.WriteString("{ ")
	vals := make([]string, len(x.Lhs))
	if len(x.Rhs) == 1 {
		b.WriteString(strings.Join(ts, ", ") + " := " + p.rhs(x.Rhs[0], len(x.Lhs)) + "; ")
		copy(vals, ts)
	} else {
		var tl, rl []string
		for i, r := range x.Rhs {
			tv := p.info.Types[r]
			if tv.Value != nil || tv.IsNil() {
				vals[i] = p.rawN(r)
				continue
			}
			tl = append(tl, ts[i])
			rl = append(rl, p.val(r))
			vals[i] = ts[i]
		}
		if len(tl) > 0 {
			b.WriteString(strings.Join(tl, ", ") + " := " + strings.Join(rl, ", ") + "; ")
		}
	}
	for i, l := range x.Lhs {
		b.WriteString(p.store(l, vals[i]) + "; ")
	}
	b.WriteString("}")
	return b.String()
}

// stmt renders a statement; list tells whether it stands in a statement list
// (and may become a block).
func (p *pkg) stmt(s ast.Stmt, list bool) string {
	switch x := s.(type) {
	case nil:
		return ""
	case *ast.AssignStmt:
		return p.assign(x, list)
	case *ast.IncDecStmt:
		l := unparen(x.X)
		if _, ok := p.isMapIndex(l); ok {
			return p.lhs(l) + x.Tok.String()
		}
		if p.tracked(l) {
			return fmt.Sprintf("simrt.IncDec(%s, %s, %v)", p.ptr(l), p.site(l), x.Tok == token.DEC)
		}
		return p.addr(l) + x.Tok.String()
	case *ast.SendStmt:
		return "simrt.Send(" + p.val(x.Chan) + ")(" + p.val(x.Value) + ")"
	case *ast.GoStmt:
		return p.goStmt(x)
	case *ast.SelectStmt:
		return p.selectStmt(x, "")
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return p.selectStmt(sel, x.Label.Name+": ")
		}
		return p.raw(x.Pos(), x.Stmt.Pos()) + p.stmt(x.Stmt, true)
	case *ast.BlockStmt:
		return p.node(x)
	case *ast.ForStmt:
		return p.splice(x, func(c ast.Node) string {
			switch c {
			case x.Body:
				return p.body(x.Body)
			case x.Cond:
				return p.val(x.Cond)
			}
			return p.stmt(c.(ast.Stmt), false)
		})
	case *ast.RangeStmt:
		return p.splice(x, func(c ast.Node) string {
			switch c {
			case x.Body:
				return p.body(x.Body)
			case x.X:
				switch u := under(p.typeOf(x.X)).(type) {
				case *types.Map:
					return "simrt.RangeMap(" + p.val(x.X) + ", " + p.site(x.X) + ")"
				case *types.Chan:
					return "simrt.RangeChan(" + p.val(x.X) + ")"
				case *types.Array:
					_ = u
					return p.addr(x.X)
				}
				return p.val(x.X)
			}
			return p.addr(c.(ast.Expr))
		})
	case *ast.IfStmt:
		return p.splice(x, func(c ast.Node) string {
			switch c {
			case x.Cond:
				return p.val(x.Cond)
			case x.Init:
				return p.stmt(x.Init, false)
			}
			return p.stmt(c.(ast.Stmt), true)
		})
	case *ast.SwitchStmt:
		return p.splice(x, func(c ast.Node) string {
			switch c {
			case x.Init:
				return p.stmt(x.Init, false)
			case x.Tag:
				return p.val(x.Tag)
			}
			return p.node(c)
		})
	case *ast.TypeSwitchStmt:
		return p.splice(x, func(c ast.Node) string {
			if c == x.Body {
				return p.node(c)
			}
			return p.stmt(c.(ast.Stmt), false)
		})
	case *ast.CaseClause:
		return p.splice(x, func(c ast.Node) string {
			if e, ok := c.(ast.Expr); ok {
				return p.val(e)
			}
			return p.stmt(c.(ast.Stmt), true)
		})
	case *ast.DeclStmt:
		return p.splice(x, p.node)
	case *ast.ReturnStmt:
		return p.splice(x, p.node)
	case *ast.ExprStmt:
		return p.val(x.X)
	case *ast.DeferStmt:
		return "defer " + p.call(x.Call)
	case *ast.BranchStmt, *ast.EmptyStmt:
		return p.rawN(x)
	}
	die("%s: unknown statement %T", p.pos(s.Pos()), s)
	return ""
}

func (p *pkg) body(b *ast.BlockStmt) string {
	s := p.node(b)
	return "{ simrt.Tick(); " + s[1:]
}

func (p *pkg) goStmt(x *ast.GoStmt) string {
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 &&
		fl.Type.Params.NumFields() == 0 && fl.Type.Results.NumFields() == 0 {
		return "simrt.Go(" + p.val(fl) + ")"
	}
	var b strings.Builder
	b.WriteString("{ ")
	tv := p.info.Types[c.Fun]
	fun := ""
	plain := tv.IsType() || tv.IsBuiltin()
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		if _, ok := p.info.Uses[f].(*types.Func); ok {
			plain = true
		}
	case *ast.SelectorExpr:
		if p.info.Selections[f] == nil {
			if _, ok := p.info.Uses[f.Sel].(*types.Func); ok {
				plain = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if _, ok := under(tv.Type).(*types.Signature); ok {
			if ix, ok := f.(*ast.IndexExpr); ok && !p.info.Types[ix.Index].IsType() {
				break
			}
			plain = true
		}
	}
	if tv.IsBuiltin() {
		// Builtins are rare here; evaluate them in the new goroutine.
		return "simrt.Go(func() { " + p.call(c) + " })"
	}
	if plain {
		fun = p.val(c.Fun)
	} else {
		fun = p.temp()
		b.WriteString(fun + " := " + p.val(c.Fun) + "; ")
	}
	var as []string
	for _, a := range c.Args {
		atv := p.info.Types[a]
		if _, tuple := atv.Type.(*types.Tuple); tuple || atv.Value != nil || atv.IsNil() {
			as = append(as, p.val(a))
			continue
		}
		t := p.temp()
		b.WriteString(t + " := " + p.val(a) + "; ")
		as = append(as, t)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	b.WriteString("simrt.Go(func() { " + fun + "(" + strings.Join(as, ", ") + ell + ") }) }")
	return b.String()
}

func (p *pkg) selectStmt(x *ast.SelectStmt, label string) string {
	if len(x.Body.List) == 0 {
		return "for { simrt.BlockForever() }"
	}
	var pre, sw strings.Builder
	hasDefault := false
	var cases []string
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := func() string {
			var b strings.Builder
			for _, s := range cc.Body {
				b.WriteString(p.line(s.Pos()) + p.stmt(s, true) + "; ")
			}
			return b.String()
		}
		if cc.Comm == nil {
			hasDefault = true
			sw.WriteString("default: " + body() + "\n")
			continue
		}
		v := p.temp()
		i := len(cases)
		cases = append(cases, v)
		fmt.Fprintf(&sw, "case %d: ", i)
		recv := func(e ast.Expr) {
			u := unparen(e).(*ast.UnaryExpr)
			pre.WriteString(v + " := simrt.NewRecv(" + p.val(u.X) + "); ")
		}
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			pre.WriteString(v + " := simrt.NewSend(" + p.val(y.Chan) + ")(" + p.val(y.Value) + "); ")
		case *ast.ExprStmt:
			recv(y.X)
		case *ast.AssignStmt:
			recv(y.Rhs[0])
			vals := []string{v + ".Val()", v + ".Ok()"}[:len(y.Lhs)]
			if y.Tok == token.DEFINE {
				var ls []string
				for _, l := range y.Lhs {
					ls = append(ls, p.rawN(l))
				}
				sw.WriteString(strings.Join(ls, ", ") + " := " + strings.Join(vals, ", ") + "; ")
			} else {
				for k, l := range y.Lhs {
					sw.WriteString(p.store(l, vals[k]) + "; ")
				}
			}
		}
		sw.WriteString(body() + "\n")
	}
	if !hasDefault {
		sw.WriteString("default: panic(\"simrt: unreachable\")\n")
	}
	arg := ""
	for _, c := range cases {
		arg += ", " + c
	}
	return fmt.Sprintf("{ %s%sswitch simrt.Select(%v%s) {\n%s}%s }", pre.String(), label, hasDefault, arg, sw.String(), p.line(x.End()))
}
