package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-built source under analysis.
type Program struct {
	repo   string
	fset   *token.FileSet
	ssa    *ssa.Program
	Thrift *ssa.Package
	Shim   *ssa.Package
	List   *ssa.Package
	Gen    map[*types.Package]bool // emitted packages
	User   *ssa.Package            // user code of the library, see user.go
	imp    types.Importer
	std    map[*ssa.Package]bool // library packages that are followed into
	info   *types.Info
	files  []*ast.File
	names  []string
	all    []*ssa.Function
	bs     *baseState
}

func loadProgram(repo string) (*Program, error) {
	dir := filepath.Join(repo, "lib/go/src/thrift")
	ctx := build.Default
	ctx.GOPATH = filepath.Join(repo, "lib/go")
	ctx.CgoEnabled = false
	ctx.BuildTags = nil
	os.Setenv("GO111MODULE", "off")
	build.Default = ctx
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("cannot list %s: %v", dir, err)
	}
	p := &Program{repo: repo, fset: token.NewFileSet()}
	sort.Strings(bp.GoFiles)
	for _, f := range bp.GoFiles {
		a, err := parser.ParseFile(p.fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, fmt.Errorf("parse: %v", err)
		}
		p.files = append(p.files, a)
		p.names = append(p.names, f)
	}
	imp := &sourceImporter{Importer: importer.ForCompiler(p.fset, "source", nil), fset: p.fset, own: map[string]*ownedPkg{"container/list": nil, "slices": nil, "maps": nil, "cmp": nil}}
	pkg := types.NewPackage("thrift", "thrift")
	tc := &types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	sp, info, err := buildPackage(tc, p.fset, pkg, p.files, imp)
	if err != nil {
		return nil, fmt.Errorf("type check: %v", err)
	}
	p.imp = imp
	p.std = map[*ssa.Package]bool{}
	for path, o := range imp.own {
		if o == nil {
			continue
		}
		q := sp.Prog.Package(o.pkg)
		p.std[q] = true
		if path == "container/list" {
			p.List = q
		}
	}
	p.Thrift = sp
	p.ssa = sp.Prog
	p.info = info
	if err := p.loadShims(); err != nil {
		return nil, err
	}
	p.loadUser()
	for f := range ssautil.AllFunctions(p.ssa) {
		if p.Owned(f) && len(f.Blocks) > 0 {
			p.all = append(p.all, f)
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].RelString(nil) < p.all[j].RelString(nil) })
	return p, nil
}

// sourceImporter keeps the syntax of the library packages whose bodies are analysed.
type sourceImporter struct {
	types.Importer
	fset *token.FileSet
	own  map[string]*ownedPkg
}

type ownedPkg struct {
	pkg   *types.Package
	files []*ast.File
	info  *types.Info
}

func newInfo() *types.Info {
	return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
}

func (s *sourceImporter) Import(path string) (*types.Package, error) {
	o, ok := s.own[path]
	if !ok {
		return s.Importer.Import(path)
	}
	if o != nil {
		return o.pkg, nil
	}
	bp, err := build.Default.Import(path, "", 0)
	if err != nil {
		return nil, err
	}
	o = &ownedPkg{info: newInfo()}
	for _, f := range bp.GoFiles {
		a, err := parser.ParseFile(s.fset, filepath.Join(bp.Dir, f), nil, 0)
		if err != nil {
			return nil, err
		}
		o.files = append(o.files, a)
	}
	if err := plain(s.fset, path, o.files); err != nil {
		return nil, err
	}
	o.pkg = types.NewPackage(path, bp.Name)
	var hard error
	tc := &types.Config{Importer: s, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {
		// an import may be unused after plain
		if e, ok := err.(types.Error); (!ok || !e.Soft) && hard == nil {
			hard = err
		}
	}}
	types.NewChecker(tc, s.fset, o.pkg, o.info).Files(o.files)
	if hard != nil {
		return nil, hard
	}
	o.pkg.MarkComplete()
	s.own[path] = o
	return o.pkg, nil
}

// plainSource has plain equivalents of functions written for speed.
var plainSource = map[string]string{
	"slices": `package slices

import "cmp"

func Insert[S ~[]E, E any](s S, i int, v ...E) S {
	r := append(S(nil), s[:i]...)
	r = append(r, v...)
	return append(r, s[i:]...)
}
func Delete[S ~[]E, E any](s S, i, j int) S {
	_ = s[i:j]
	if i == j {
		return s
	}
	r := append(S(nil), s[:i]...)
	return append(r, s[j:]...)
}
func Replace[S ~[]E, E any](s S, i, j int, v ...E) S {
	_ = s[i:j]
	r := append(S(nil), s[:i]...)
	r = append(r, v...)
	return append(r, s[j:]...)
}
func DeleteFunc[S ~[]E, E any](s S, del func(E) bool) S {
	r := append(S(nil), s[:0]...)
	for _, v := range s {
		if !del(v) {
			r = append(r, v)
		}
	}
	return r
}
func Clone[S ~[]E, E any](s S) S {
	if s == nil {
		return nil
	}
	return append(S{}, s...)
}
func Grow[S ~[]E, E any](s S, n int) S {
	if n < 0 {
		panic("cannot be negative")
	}
	return s
}
func Clip[S ~[]E, E any](s S) S { return s[:len(s):len(s)] }
func Concat[S ~[]E, E any](ss ...S) S {
	var r S
	for _, s := range ss {
		r = append(r, s...)
	}
	return r
}
func Repeat[S ~[]E, E any](x S, count int) S {
	if count < 0 {
		panic("cannot be negative")
	}
	r := S{}
	for i := 0; i < count; i++ {
		r = append(r, x...)
	}
	return r
}
func Sort[S ~[]E, E cmp.Ordered](x S) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func SortStableFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && cmp(x[j], x[j-1]) < 0; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && cmp(x[j], x[j-1]) < 0; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
`,
	"maps": `package maps

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M)
	for k, v := range m {
		r[k] = v
	}
	return r
}
`,
	"cmp": `package cmp

func isNaN[T Ordered](x T) bool { return false }
`,
}

// plain replaces functions of a library package by their plain equivalents.
func plain(fset *token.FileSet, path string, files []*ast.File) error {
	src, ok := plainSource[path]
	if !ok {
		return nil
	}
	f, err := parser.ParseFile(fset, "plain_"+path+".go", src, 0)
	if err != nil {
		return err
	}
	by := map[string]*ast.FuncDecl{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			by[fd.Name.Name] = fd
		}
	}
	for _, g := range files {
		for i, d := range g.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				if r := by[fd.Name.Name]; r != nil {
					g.Decls[i] = r
				} else if fd.Body == nil {
					// a function written in assembly or linked: never followed into
					continue
				}
			}
		}
	}
	return nil
}

// buildPackage type-checks the analysed package and builds its SSA form and
// that of the library packages kept with their syntax.
func buildPackage(tc *types.Config, fset *token.FileSet, pkg *types.Package, files []*ast.File, imp *sourceImporter) (*ssa.Package, *types.Info, error) {
	info := newInfo()
	if err := types.NewChecker(tc, fset, pkg, info).Files(files); err != nil {
		return nil, nil, err
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	syntax := map[*types.Package]*ownedPkg{}
	for _, o := range imp.own {
		if o != nil {
			syntax[o.pkg] = o
		}
	}
	created := map[*types.Package]bool{}
	var built []*ssa.Package
	var all func(pkgs []*types.Package)
	all = func(pkgs []*types.Package) {
		for _, q := range pkgs {
			if created[q] {
				continue
			}
			created[q] = true
			if o := syntax[q]; o != nil {
				built = append(built, prog.CreatePackage(q, o.files, o.info, true))
			} else {
				prog.CreatePackage(q, nil, nil, true)
			}
			all(q.Imports())
		}
	}
	all(pkg.Imports())
	for _, b := range built {
		b.Build()
	}
	sp := prog.CreatePackage(pkg, files, info, false)
	sp.Build()
	return sp, info, nil
}

// Owned: the function's source is in the analysed package.
func (p *Program) Owned(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg == p.Thrift {
			return true
		}
		if g.Parent() == nil {
			if g.Pkg != nil {
				return false
			}
			// wrappers, bound methods, instantiations
			if o := g.Object(); o != nil && o.Pkg() != nil && o.Pkg() == p.Thrift.Pkg {
				return true
			}
			if g.Origin() != nil && g.Origin().Pkg == p.Thrift {
				return true
			}
			// methods promoted to a type of the package
			if r := g.Signature.Recv(); r != nil && g.Synthetic != "" {
				t := r.Type()
				if q, ok := t.(*types.Pointer); ok {
					t = q.Elem()
				}
				if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == p.Thrift.Pkg {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = filepath.Base(r)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Type finds a named type of the package.
func (p *Program) Type(name string) types.Type {
	o := p.Thrift.Pkg.Scope().Lookup(name)
	if t, ok := o.(*types.TypeName); ok {
		return t.Type()
	}
	return nil
}

// Func finds a package-level function.
func (p *Program) Func(name string) *ssa.Function { return p.Thrift.Func(name) }

// Method finds the implementation of an interface method on a concrete type.
func (p *Program) Method(t types.Type, m *types.Func) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// MethodByName finds an exported method on type t (pointer receiver included).
func (p *Program) MethodByName(t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(p.Thrift.Pkg, name)
	if sel == nil {
		ms = p.ssa.MethodSets.MethodSet(types.NewPointer(t))
		sel = ms.Lookup(p.Thrift.Pkg, name)
	}
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) ConstVal(name string) *types.Const {
	c, _ := p.Thrift.Pkg.Scope().Lookup(name).(*types.Const)
	return c
}

// implementors lists the (pointer) types of the package that implement an interface.
func (p *Program) implementors(it *types.Interface) []types.Type {
	var r []types.Type
	sc := p.Thrift.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || isIface(tn.Type()) {
			continue
		}
		switch {
		case types.Implements(tn.Type(), it):
			r = append(r, tn.Type())
		case types.Implements(types.NewPointer(tn.Type()), it):
			r = append(r, types.NewPointer(tn.Type()))
		}
	}
	return r
}

// concrete lists the package's concrete types and pointers to them.
func (p *Program) concrete() []types.Type {
	var r []types.Type
	for _, m := range p.Thrift.Members {
		t, ok := m.(*ssa.Type)
		if !ok || isIface(t.Type()) {
			continue
		}
		r = append(r, t.Type(), types.NewPointer(t.Type()))
	}
	return r
}

// ofStd: the function is one of a library package that is followed into.
func (p *Program) ofStd(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg != nil && p.std[f.Pkg]
}
