package main

// The C++ generator. The Thrift compiler is not part of this repository, only
// its Go back end is (compiler/cpp/src/generate/t_go_generator.cc). clang
// parses that file against declarations of the compiler's classes (cppstub/)
// and hands over the typed syntax tree; what follows specialises the
// generator's methods to a given IDL program by propagating constants through
// the tree: nothing is compiled or executed. The result is the Go text the
// generator emits for that program, which the checks then analyse as they
// analyse the library.
//
// A construct outside the fragment understood here ends the specialisation
// with cUnsup, which is no verdict about the generator.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type cnode struct {
	ID, Kind, Name, Opcode string
	Value                  any
	Type                   struct{ QualType, DesugaredQualType string }
	Inner                  []*cnode
	ReferencedDecl         *cnode
	ReferencedMemberDecl   string
	PreviousDecl           string
	CastKind               string
	IsPostfix              bool
	HasElse, HasInit       bool
	HasVar                 bool
	StorageClass           string
	Loc                    *cloc
	Range                  *struct{ Begin *cloc }
	ExplicitlyDefaulted    any
}

type cloc struct {
	Line         int
	SpellingLoc  *cloc
	ExpansionLoc *cloc
}

func (n *cnode) qual() string {
	if n.Type.DesugaredQualType != "" {
		return n.Type.DesugaredQualType
	}
	return n.Type.QualType
}

func (n *cnode) body() *cnode {
	for _, x := range n.Inner {
		if x.Kind == "CompoundStmt" {
			return x
		}
	}
	return nil
}

func (n *cnode) params() (out []*cnode) {
	for _, x := range n.Inner {
		if x.Kind == "ParmVarDecl" {
			out = append(out, x)
		}
	}
	return
}

type cUnsup struct{ msg string } // outside the fragment
type cThrow struct{ msg string } // the generator reports an error
type cAbort struct{ msg string } // the generator's behaviour is undefined here

func unsup(f string, a ...any) { panic(cUnsup{fmt.Sprintf(f, a...)}) }

// cprog is the generator's source.
type cprog struct {
	file, stub string
	decls      map[string]*cnode // definitions by any id that stands for them
	byName     map[string][]*cnode
	fields     []*cnode
	free       map[string]*cnode
	dumps      map[string][]*cnode
	methods    int
}

func generatorFile(repo string) string {
	return filepath.Join(repo, "compiler/cpp/src/generate/t_go_generator.cc")
}

func clangAST(file, stub, filter string) ([]*cnode, error) {
	var errb bytes.Buffer
	cmd := exec.Command("clang++", "-x", "c++", "-std=gnu++17", "-fsyntax-only", "-w", "-I"+stub, "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter="+filter, file)
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	dec := json.NewDecoder(&dropHeads{r: out})
	var docs []*cnode
	var derr error
	for {
		n := &cnode{}
		if err := dec.Decode(n); err != nil {
			if err != io.EOF {
				derr = err
			}
			break
		}
		docs = append(docs, n)
	}
	if derr != nil {
		io.Copy(io.Discard, out)
	}
	if err := cmd.Wait(); err != nil {
		s := errb.String()
		if len(s) > 400 {
			s = s[:400]
		}
		return nil, fmt.Errorf("clang++ does not accept %s: %v: %s", file, err, s)
	}
	return docs, derr
}

// dropHeads drops the lines "Dumping …:" between the documents.
type dropHeads struct {
	r    io.Reader
	data *bytes.Reader
}

func (d *dropHeads) Read(p []byte) (int, error) {
	if d.data == nil {
		b, err := io.ReadAll(d.r)
		if err != nil {
			return 0, err
		}
		var out bytes.Buffer
		for len(b) > 0 {
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				i = len(b) - 1
			}
			if !bytes.HasPrefix(b, []byte("Dumping ")) {
				out.Write(b[:i+1])
			}
			b = b[i+1:]
		}
		d.data = bytes.NewReader(out.Bytes())
	}
	return d.data.Read(p)
}

func loadGenerator(repo, verif string) (*cprog, error) {
	file := generatorFile(repo)
	if _, err := os.Stat(file); err != nil {
		return nil, err
	}
	g := &cprog{file: file, stub: filepath.Join(verif, "analyzer/cppstub"), decls: map[string]*cnode{}, byName: map[string][]*cnode{}, free: map[string]*cnode{}, dumps: map[string][]*cnode{}}
	docs, err := clangAST(file, g.stub, "t_go_generator")
	if err != nil {
		return nil, err
	}
	for _, d := range docs {
		g.collect(d)
	}
	if g.methods == 0 {
		return nil, fmt.Errorf("no method of t_go_generator in %s", file)
	}
	return g, nil
}

func (g *cprog) collect(d *cnode) {
	switch d.Kind {
	case "CXXRecordDecl":
		for _, x := range d.Inner {
			if x.Kind == "FieldDecl" {
				g.fields = append(g.fields, x)
			} else {
				g.collect(x)
			}
		}
	case "CXXMethodDecl", "FunctionDecl":
		if d.body() == nil {
			return
		}
		if g.decls[d.ID] != nil {
			return
		}
		g.methods++
		g.decls[d.ID] = d
		if d.PreviousDecl != "" {
			g.decls[d.PreviousDecl] = d
		}
		g.byName[d.Name] = append(g.byName[d.Name], d)
	}
}

// freeDecl finds a function or table of the file that is not a member, the
// instance of a template included.
func (g *cprog) freeDecl(ref *cnode) *cnode {
	name := ref.Name
	key := name + " " + ref.Type.QualType
	if d, ok := g.free[key]; ok {
		return d
	}
	g.free[key] = nil
	docs, ok := g.dumps[name]
	if !ok {
		var err error
		if docs, err = clangAST(g.file, g.stub, name); err != nil {
			docs = nil
		}
		g.dumps[name] = docs
	}
	var found []*cnode
	for _, d := range docs {
		if d.Kind == "FunctionTemplateDecl" {
			found = append(found, d.Inner...)
		} else {
			found = append(found, d)
		}
	}
	for _, d := range found {
		if d.Name == name && (d.Kind == "FunctionDecl" && d.body() != nil || d.Kind == "VarDecl" && len(d.Inner) > 0) && (d.Type.QualType == ref.Type.QualType || g.free[key] == nil && len(found) == 1) {
			g.free[key] = d
		}
	}
	return g.free[key]
}

// values: string, int64, cchar, float64, bool, nil and the following
type (
	cchar byte
	cvec  struct {
		v   []any
		set bool // in order, without duplicates
	}
	cpair   struct{ first, second any }
	cmap    struct{ v []*cpair }
	cstream struct {
		b    *strings.Builder
		prec int64
	}
	cobj struct {
		kind string
		f    map[string]any
	}
	citer struct {
		v   *cvec
		m   *cmap
		s   clval
		i   int
		rev bool
	}
	cfun struct{ name string }
	clam struct {
		d *cnode
		e *cenv
	} // a lambda
	cval struct {
		m *cmap
		k any
	} // a value of a map
	cthis struct{}
	clval interface {
		get() any
		set(any)
	}
	ccell struct{ v any }
	cref  struct {
		s clval
		i int
	} // a character of a string
)

func (c *ccell) get() any  { return c.v }
func (c *ccell) set(v any) { c.v = v }
func (r cval) get() any {
	for _, p := range r.m.v {
		if same(p.first, r.k) {
			return p.second
		}
	}
	unsup("a key that is not in the map")
	return nil
}
func (r cval) set(v any) { r.m.put(r.k, v) }

// put keeps the order of the keys.
func (m *cmap) put(k, v any) {
	for i, p := range m.v {
		if same(p.first, k) {
			p.second = v
			return
		}
		if less(k, p.first) {
			m.v = append(m.v[:i:i], append([]*cpair{{k, v}}, m.v[i:]...)...)
			return
		}
	}
	m.v = append(m.v, &cpair{k, v})
}

// insert adds to a set and tells where and whether.
func (x *cvec) insert(v any) *cpair {
	for i, y := range x.v {
		if same(y, v) {
			return &cpair{citer{v: x, i: i}, false}
		}
		if less(v, y) {
			x.v = append(x.v[:i:i], append([]any{v}, x.v[i:]...)...)
			return &cpair{citer{v: x, i: i}, true}
		}
	}
	x.v = append(x.v, v)
	return &cpair{citer{v: x, i: len(x.v) - 1}, true}
}

// less is the order of texts and numbers.
func less(a, b any) bool {
	if s, ok := a.(string); ok {
		return s < asStr(b)
	}
	switch a.(type) {
	case int64, cchar, bool:
		return asInt(a) < asInt(b)
	}
	unsup("order of %T", a)
	return false
}

func copied(v any) any {
	switch x := v.(type) {
	case *cvec:
		return &cvec{append([]any(nil), x.v...), x.set}
	case *cmap:
		y := &cmap{}
		for _, p := range x.v {
			y.v = append(y.v, &cpair{p.first, p.second})
		}
		return y
	}
	return v
}

func (r cref) get() any {
	s := asStr(r.s.get())
	if r.i == len(s) {
		return cchar(0)
	}
	if r.i < 0 || r.i > len(s) {
		panic(cAbort{fmt.Sprintf("character %d of %q is read", r.i, s)})
	}
	return cchar(s[r.i])
}
func (r cref) set(v any) {
	s := asStr(r.s.get())
	if r.i < 0 || r.i >= len(s) {
		panic(cAbort{fmt.Sprintf("character %d of %q is written", r.i, s)})
	}
	r.s.set(s[:r.i] + string([]byte{byte(asInt(v))}) + s[r.i+1:])
}

func asStr(v any) string {
	s, ok := v.(string)
	if !ok {
		unsup("a text was expected, got %T", v)
	}
	return s
}

func asInt(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case cchar:
		return int64(int8(x))
	case bool:
		if x {
			return 1
		}
		return 0
	case nil:
		return 0
	}
	unsup("a number was expected, got %T", v)
	return 0
}

func asBool(v any) bool {
	switch x := v.(type) {
	case bool:
		return x
	case nil:
		return false
	case int64:
		return x != 0
	case float64:
		return x != 0
	case cchar:
		return x != 0
	case *cobj, *cvec, *cmap, *cstream, string:
		return true
	}
	unsup("a condition on %T", v)
	return false
}

// cgen is the generator at work on one program.
type cgen struct {
	*cprog
	this    map[string]*ccell
	files   map[string]*cstream
	indents int
	tmps    int
	steps   int
	depth   int
	statics map[string]*ccell
}

type cenv struct {
	vars map[string]*ccell // by declaration
	refs map[string]clval
}

type cctl int

const (
	cNext cctl = iota
	cBreak
	cContinue
	cReturn
)

func newGen(p *cprog, program *cobj) *cgen {
	g := &cgen{cprog: p, this: map[string]*ccell{}, files: map[string]*cstream{}, statics: map[string]*ccell{}}
	for _, f := range p.fields {
		g.this[f.Name] = &ccell{g.zero(f.qual())}
	}
	g.this["program_"] = &ccell{program}
	g.this["program_name_"] = &ccell{program.f["name"]}
	g.this["service_name_"] = &ccell{""}
	g.this["out_dir_base_"] = &ccell{"gen-go"}
	return g
}

func (g *cgen) zero(t string) any {
	t = strings.TrimPrefix(t, "const ")
	switch {
	case strings.Contains(t, "stream"):
		return &cstream{b: &strings.Builder{}, prec: 6}
	case strings.Contains(t, "iterator"):
		return citer{}
	case strings.HasPrefix(t, "std::basic_string") || t == "std::string" || t == "string" || strings.HasPrefix(t, "basic_string"):
		return ""
	case strings.HasPrefix(t, "std::vector") || strings.HasPrefix(t, "vector"):
		return &cvec{}
	case strings.HasPrefix(t, "std::map") || strings.HasPrefix(t, "map"):
		return &cmap{}
	case strings.HasPrefix(t, "std::set<") || strings.HasPrefix(t, "set<"):
		return &cvec{set: true}
	case strings.HasPrefix(t, "char["):
		return ""
	case t == "bool":
		return false
	case strings.HasSuffix(t, "*"):
		return nil
	case t == "double":
		return 0.0
	case t == "char":
		return cchar(0)
	}
	return int64(0)
}

// call runs a method or function of the file.
func (g *cgen) call(d *cnode, args []any) any {
	if g.depth++; g.depth > 200 {
		unsup("deep recursion in %s", d.Name)
	}
	defer func() {
		g.depth--
		if r := recover(); r != nil {
			if x, ok := r.(cUnsup); ok && !strings.Contains(x.msg, " in ") {
				r = cUnsup{x.msg + " in " + d.Name}
			}
			panic(r)
		}
	}()
	return g.callIn(d, args, &cenv{map[string]*ccell{}, map[string]clval{}})
}

func (g *cgen) callIn(d *cnode, args []any, e *cenv) any {
	for i, p := range d.params() {
		if i >= len(args) {
			unsup("too few arguments of %s", d.Name)
		}
		if l, ok := args[i].(clval); ok {
			delete(e.vars, p.ID)
			e.refs[p.ID] = l
			continue
		}
		e.vars[p.ID] = &ccell{args[i]}
	}
	ctl, v := g.exec(d.body(), e)
	if ctl == cReturn {
		return v
	}
	return nil
}

// method runs a method of the generator by name, with values as arguments.
func (g *cgen) method(name string, args ...any) any {
	for _, d := range g.byName[name] {
		if len(d.params()) == len(args) {
			return g.call(d, args)
		}
	}
	unsup("the generator has no method %s", name)
	return nil
}

func (g *cgen) exec(n *cnode, e *cenv) (cctl, any) {
	if g.steps++; g.steps > 3_000_000 {
		panic(cAbort{"the generator does not come to an end"})
	}
	switch n.Kind {
	case "CompoundStmt":
		for _, x := range n.Inner {
			if c, v := g.exec(x, e); c != cNext {
				return c, v
			}
		}
		return cNext, nil
	case "DeclStmt":
		for _, x := range n.Inner {
			if x.Kind == "VarDecl" {
				g.declare(x, e)
			} else if x.Kind != "TypedefDecl" && x.Kind != "TypeAliasDecl" && x.Kind != "UsingDirectiveDecl" && x.Kind != "UsingDecl" && x.Kind != "StaticAssertDecl" {
				unsup("declaration %s", x.Kind)
			}
		}
		return cNext, nil
	case "NullStmt":
		return cNext, nil
	case "IfStmt":
		in := n.Inner
		if n.HasInit {
			g.exec(in[0], e)
			in = in[1:]
		}
		if n.HasVar {
			g.exec(in[0], e)
			in = in[1:]
		}
		if asBool(g.ev(in[0], e)) {
			return g.exec(in[1], e)
		}
		if len(in) > 2 {
			return g.exec(in[2], e)
		}
		return cNext, nil
	case "WhileStmt":
		in := n.Inner[len(n.Inner)-2:]
		for asBool(g.ev(in[0], e)) {
			if c, v := g.exec(in[1], e); c == cBreak {
				break
			} else if c == cReturn {
				return c, v
			}
		}
		return cNext, nil
	case "DoStmt":
		for {
			if c, v := g.exec(n.Inner[0], e); c == cBreak {
				break
			} else if c == cReturn {
				return c, v
			}
			if !asBool(g.ev(n.Inner[1], e)) {
				break
			}
		}
		return cNext, nil
	case "ForStmt":
		in := n.Inner
		if len(in) != 5 {
			unsup("for with %d parts", len(in))
		}
		if in[0].Kind != "" {
			g.exec(in[0], e)
		}
		for in[2].Kind == "" || asBool(g.ev(in[2], e)) {
			if c, v := g.exec(in[4], e); c == cBreak {
				break
			} else if c == cReturn {
				return c, v
			}
			if in[3].Kind != "" {
				g.ev(in[3], e)
			}
			if g.steps++; g.steps > 3_000_000 {
				panic(cAbort{"the generator does not come to an end"})
			}
		}
		return cNext, nil
	case "CXXForRangeStmt":
		return g.execRange(n, e)
	case "SwitchStmt":
		return g.execSwitch(n, e)
	case "CaseStmt", "DefaultStmt":
		return g.exec(n.Inner[len(n.Inner)-1], e)
	case "BreakStmt":
		return cBreak, nil
	case "ContinueStmt":
		return cContinue, nil
	case "ReturnStmt":
		if len(n.Inner) == 0 {
			return cReturn, nil
		}
		return cReturn, g.ev(n.Inner[0], e)
	}
	if strings.HasSuffix(n.Kind, "Stmt") {
		unsup("statement %s", n.Kind)
	}
	g.ev(n, e)
	return cNext, nil
}

func (g *cgen) execRange(n *cnode, e *cenv) (cctl, any) {
	// the first declaration is the range, the last one the variable
	var rng, v *cnode
	for _, x := range n.Inner {
		if x != nil && x.Kind == "DeclStmt" && len(x.Inner) > 0 && x.Inner[0].Kind == "VarDecl" {
			if rng == nil {
				rng = x.Inner[0]
			}
			v = x.Inner[0]
		}
	}
	if rng == nil || v == nil || len(rng.Inner) == 0 {
		unsup("range")
	}
	seq := g.ev(rng.Inner[len(rng.Inner)-1], e)
	var items []any
	switch s := seq.(type) {
	case *cvec:
		items = append(items, s.v...)
	case *cmap:
		for _, p := range s.v {
			items = append(items, p)
		}
	case string:
		for i := 0; i < len(s); i++ {
			items = append(items, cchar(s[i]))
		}
	default:
		unsup("range over %T", seq)
	}
	for _, x := range items {
		e.vars[v.ID] = &ccell{x}
		c, r := g.exec(n.Inner[len(n.Inner)-1], e)
		if c == cBreak {
			break
		}
		if c == cReturn {
			return c, r
		}
	}
	return cNext, nil
}

func (g *cgen) execSwitch(n *cnode, e *cenv) (cctl, any) {
	k := asInt(g.ev(n.Inner[len(n.Inner)-2], e))
	body := n.Inner[len(n.Inner)-1]
	if body.Kind != "CompoundStmt" {
		unsup("switch on %s", body.Kind)
	}
	start := -1
	var first *cnode
	def := -1
	for i, s := range body.Inner {
		for x := s; x.Kind == "CaseStmt" || x.Kind == "DefaultStmt"; x = x.Inner[len(x.Inner)-1] {
			if x.Kind == "DefaultStmt" {
				def = i
			} else if start < 0 && asInt(g.ev(x.Inner[0], e)) == k {
				start, first = i, x
			}
		}
	}
	_ = first
	if start < 0 {
		start = def
	}
	if start < 0 {
		return cNext, nil
	}
	for _, s := range body.Inner[start:] {
		if c, v := g.exec(s, e); c == cBreak {
			return cNext, nil
		} else if c != cNext {
			return c, v
		}
	}
	return cNext, nil
}

func (g *cgen) declare(x *cnode, e *cenv) {
	var init *cnode
	for _, y := range x.Inner {
		if !strings.HasSuffix(y.Kind, "Attr") && !strings.HasSuffix(y.Kind, "Comment") {
			init = y
		}
	}
	t := x.qual()
	if strings.HasSuffix(x.Type.QualType, "&") && init != nil {
		if l := g.tryLv(init, e); l != nil {
			e.refs[x.ID] = l
			return
		}
	}
	if x.StorageClass == "static" {
		if g.statics[x.ID] == nil {
			g.statics[x.ID] = &ccell{g.initial(init, t, e)}
		}
		e.vars[x.ID] = g.statics[x.ID]
		return
	}
	e.vars[x.ID] = &ccell{g.initial(init, t, e)}
}

func (g *cgen) initial(init *cnode, t string, e *cenv) any {
	if init == nil {
		return g.zero(t)
	}
	return g.ev(init, e)
}

func strip(n *cnode) *cnode {
	for {
		switch n.Kind {
		case "ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXStaticCastExpr", "CXXConstCastExpr":
			if len(n.Inner) == 0 {
				return n
			}
			n = n.Inner[0]
			continue
		}
		return n
	}
}

// tryLv is the place an expression names, if it names one.
func (g *cgen) tryLv(n *cnode, e *cenv) clval {
	n = strip(n)
	switch n.Kind {
	case "DeclRefExpr":
		if l, ok := e.refs[n.ReferencedDecl.ID]; ok {
			return l
		}
		if c, ok := e.vars[n.ReferencedDecl.ID]; ok {
			return c
		}
	case "MemberExpr":
		if strip(n.Inner[0]).Kind == "CXXThisExpr" {
			if c, ok := g.this[n.Name]; ok {
				return c
			}
		}
	case "CXXOperatorCallExpr":
		if callee(n) == "operator[]" {
			if l := g.tryLv(n.Inner[1], e); l != nil {
				switch x := l.get().(type) {
				case string:
					return cref{l, int(asInt(g.ev(n.Inner[2], e)))}
				case *cmap:
					return cval{x, g.ev(n.Inner[2], e)}
				}
			}
		}
		if callee(n) == "operator*" {
			if it, ok := g.ev(n.Inner[1], e).(citer); ok && it.s != nil {
				return cref{it.s, it.i}
			}
		}
	}
	return nil
}

func (g *cgen) lv(n *cnode, e *cenv) clval {
	l := g.tryLv(n, e)
	if l == nil {
		unsup("assignment to %s", strip(n).Kind)
	}
	return l
}

func callee(n *cnode) string {
	c := strip(n.Inner[0])
	if c.Kind == "MemberExpr" {
		return c.Name
	}
	if c.ReferencedDecl != nil {
		return c.ReferencedDecl.Name
	}
	return ""
}

var cEnumerators = map[string]int64{
	"TYPE_VOID": 0, "TYPE_STRING": 1, "TYPE_BOOL": 2, "TYPE_BYTE": 3, "TYPE_I16": 4, "TYPE_I32": 5, "TYPE_I64": 6, "TYPE_DOUBLE": 7,
	"CV_INTEGER": 0, "CV_DOUBLE": 1, "CV_STRING": 2, "CV_MAP": 3, "CV_LIST": 4, "CV_IDENTIFIER": 5,
	"T_REQUIRED": 0, "T_OPTIONAL": 1, "T_OPT_IN_REQ_OUT": 2,
}

var cBaseNames = []string{"void", "string", "bool", "byte", "i16", "i32", "i64", "double"}

func (g *cgen) ev(n *cnode, e *cenv) any {
	switch n.Kind {
	case "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator":
		return g.ev(n.Inner[0], e)
	case "ConstantExpr":
		return g.ev(n.Inner[0], e)
	case "ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr":
		v := g.ev(n.Inner[0], e)
		switch n.CastKind {
		case "IntegralCast":
			if strings.HasSuffix(n.qual(), "char") {
				return cchar(asInt(v))
			}
			switch n.qual() {
			case "int":
				return int64(int32(asInt(v)))
			case "unsigned int":
				return int64(uint32(asInt(v)))
			case "short":
				return int64(int16(asInt(v)))
			case "bool":
				return asInt(v) != 0
			}
			return asInt(v)
		case "IntegralToBoolean", "PointerToBoolean":
			return asBool(v)
		case "IntegralToFloating":
			return float64(asInt(v))
		case "FloatingToIntegral":
			if f, ok := v.(float64); ok {
				return int64(f)
			}
		case "NullToPointer":
			return nil
		case "UserDefinedConversion":
			return v
		}
		return v
	case "StringLiteral":
		s, err := cUnquote(fmt.Sprint(n.Value))
		if err != nil {
			unsup("literal %v", n.Value)
		}
		return s
	case "IntegerLiteral":
		v, err := strconv.ParseInt(fmt.Sprint(n.Value), 10, 64)
		if err != nil {
			unsup("literal %v", n.Value)
		}
		return v
	case "CharacterLiteral":
		f, _ := n.Value.(float64)
		return cchar(byte(int(f)))
	case "FloatingLiteral":
		f, err := strconv.ParseFloat(fmt.Sprint(n.Value), 64)
		if err != nil {
			unsup("literal %v", n.Value)
		}
		return f
	case "CXXBoolLiteralExpr":
		b, _ := n.Value.(bool)
		return b
	case "GNUNullExpr", "CXXNullPtrLiteralExpr":
		return nil
	case "CXXThisExpr":
		return cthis{}
	case "DeclRefExpr":
		return g.evRef(n, e)
	case "MemberExpr":
		o := g.ev(n.Inner[0], e)
		switch x := o.(type) {
		case cthis:
			if c, ok := g.this[n.Name]; ok {
				return c.v
			}
		case *cpair:
			if n.Name == "first" {
				return x.first
			}
			if n.Name == "second" {
				return x.second
			}
		case *cobj:
			if v, ok := x.f[n.Name]; ok {
				return v
			}
		}
		if v, ok := cEnumerators[n.Name]; ok {
			return v
		}
		unsup("member %s of %T", n.Name, o)
	case "UnaryOperator":
		switch n.Opcode {
		case "!":
			return !asBool(g.ev(n.Inner[0], e))
		case "-":
			v := g.ev(n.Inner[0], e)
			if f, ok := v.(float64); ok {
				return -f
			}
			return -asInt(v)
		case "*", "&":
			// objects are handled by reference throughout
			v := g.ev(n.Inner[0], e)
			if v == nil && n.Opcode == "*" {
				panic(cAbort{"a null pointer is dereferenced"})
			}
			return v
		case "++", "--":
			l := g.lv(n.Inner[0], e)
			old := asInt(l.get())
			d := int64(1)
			if n.Opcode == "--" {
				d = -1
			}
			l.set(old + d)
			if n.IsPostfix {
				return old
			}
			return old + d
		}
		unsup("operator %s", n.Opcode)
	case "BinaryOperator":
		return g.evBinary(n, e)
	case "CompoundAssignOperator":
		l := g.lv(n.Inner[0], e)
		v := arith(strings.TrimSuffix(n.Opcode, "="), l.get(), g.ev(n.Inner[1], e))
		l.set(v)
		return v
	case "ConditionalOperator":
		if asBool(g.ev(n.Inner[0], e)) {
			return g.ev(n.Inner[1], e)
		}
		return g.ev(n.Inner[2], e)
	case "ArraySubscriptExpr":
		v, ok := g.ev(n.Inner[0], e).(*cvec)
		i := int(asInt(g.ev(n.Inner[1], e)))
		if !ok {
			unsup("subscript")
		}
		if i < 0 || i >= len(v.v) {
			panic(cAbort{fmt.Sprintf("element %d of %d is read", i, len(v.v))})
		}
		return v.v[i]
	case "InitListExpr":
		v := &cvec{}
		for _, x := range n.Inner {
			v.v = append(v.v, g.ev(x, e))
		}
		return v
	case "UnaryExprOrTypeTraitExpr":
		if len(n.Inner) == 1 && n.Name == "sizeof" {
			return csize(n.Inner[0].qual())
		}
		unsup("sizeof")
	case "CXXConstructExpr", "CXXTemporaryObjectExpr":
		return g.evConstruct(n, e)
	case "CXXStdInitializerListExpr":
		return g.ev(n.Inner[0], e)
	case "CXXDynamicCastExpr":
		v := g.ev(n.Inner[0], e)
		if x, ok := v.(*cobj); ok {
			f := strings.Fields(strings.TrimPrefix(n.qual(), "const "))
			if len(f) != 2 || f[1] != "*" {
				unsup("dynamic_cast to %s", n.qual())
			}
			if f[0] != x.kind && f[0] != "t_type" && f[0] != "t_doc" {
				if !strings.HasPrefix(x.kind, "t_") {
					unsup("dynamic_cast of a %s", x.kind)
				}
				return nil
			}
		}
		return v
	case "LambdaExpr":
		return g.evLambda(n, e)
	case "CXXThrowExpr":
		msg := ""
		if len(n.Inner) > 0 {
			msg = fmt.Sprint(g.ev(n.Inner[0], e))
		}
		panic(cThrow{msg})
	case "CXXOperatorCallExpr":
		return g.evOperator(n, e)
	case "CXXMemberCallExpr":
		return g.evMethod(n, e)
	case "CallExpr":
		return g.evCall(n, e)
	}
	unsup("expression %s", n.Kind)
	return nil
}

// csize is good for the quotient of the sizes of an array and its elements.
func csize(t string) int64 {
	if i := strings.IndexByte(t, '['); i >= 0 && strings.HasSuffix(t, "]") {
		if k, err := strconv.ParseInt(t[i+1:strings.IndexByte(t, ']')], 10, 64); err == nil {
			return k * csize(t[:i]+t[strings.IndexByte(t, ']')+1:])
		}
	}
	switch strings.TrimPrefix(t, "const ") {
	case "char", "bool", "unsigned char":
		return 1
	case "int", "unsigned int":
		return 4
	case "short":
		return 2
	}
	return 8
}

// evLambda is the function a lambda makes: its body sees the variables around
// it, those captured by value as they are now.
func (g *cgen) evLambda(n *cnode, e *cenv) any {
	if len(n.Inner) == 0 || n.Inner[0].Kind != "CXXRecordDecl" {
		unsup("lambda")
	}
	var body *cnode
	var caps []string
	for _, x := range n.Inner[0].Inner {
		if x.Kind == "CXXMethodDecl" && x.Name == "operator()" && x.body() != nil {
			body = x
		}
		if x.Kind == "FieldDecl" {
			caps = append(caps, x.Type.QualType)
		}
	}
	if body == nil {
		unsup("lambda without a body")
	}
	in := &cenv{map[string]*ccell{}, map[string]clval{}}
	for k, v := range e.vars {
		in.vars[k] = v
	}
	for k, v := range e.refs {
		in.refs[k] = v
	}
	for i, t := range caps {
		if strings.HasSuffix(t, "&") || i+1 >= len(n.Inner) || strings.Contains(t, "t_go_generator") {
			continue
		}
		x := strip(n.Inner[i+1])
		for x.Kind == "CXXConstructExpr" && len(x.Inner) > 0 {
			x = strip(x.Inner[0])
		}
		if x.Kind == "DeclRefExpr" && x.ReferencedDecl != nil {
			v := copied(g.ev(x, e))
			delete(in.refs, x.ReferencedDecl.ID)
			in.vars[x.ReferencedDecl.ID] = &ccell{v}
		}
	}
	return clam{body, in}
}

func (g *cgen) apply(f any, args ...any) any {
	switch x := f.(type) {
	case clam:
		if g.depth++; g.depth > 200 {
			unsup("deep recursion")
		}
		defer func() { g.depth-- }()
		e := &cenv{map[string]*ccell{}, map[string]clval{}}
		for k, v := range x.e.vars {
			e.vars[k] = v
		}
		for k, v := range x.e.refs {
			e.refs[k] = v
		}
		return g.callIn(x.d, args, e)
	case cfun:
		if len(args) == 1 && (strings.HasPrefix(x.name, "is") || strings.HasPrefix(x.name, "to")) {
			return cctype(x.name, asInt(args[0]))
		}
	}
	unsup("call of %T", f)
	return nil
}

func cUnquote(s string) (string, error) {
	// Go accepts the C escapes that clang prints, except for \? and \'
	s = strings.ReplaceAll(strings.ReplaceAll(s, `\?`, "?"), `\'`, "'")
	return strconv.Unquote(s)
}

func (g *cgen) evRef(n *cnode, e *cenv) any {
	d := n.ReferencedDecl
	if d == nil {
		unsup("reference")
	}
	if l, ok := e.refs[d.ID]; ok {
		return l.get()
	}
	if c, ok := e.vars[d.ID]; ok {
		return c.v
	}
	switch d.Kind {
	case "EnumConstantDecl":
		if v, ok := cEnumerators[d.Name]; ok {
			return v
		}
		unsup("enumerator %s", d.Name)
	case "FunctionDecl", "CXXMethodDecl":
		return cfun{d.Name}
	}
	switch d.Name {
	case "npos":
		return int64(-1)
	case "cout", "cerr":
		return &cstream{b: &strings.Builder{}, prec: 6}
	case "S_IRUSR", "S_IWUSR", "S_IXUSR", "S_IRGRP", "S_IXGRP", "S_IROTH", "S_IXOTH":
		return int64(0)
	case "stderr", "stdout":
		return nil
	}
	if strings.HasPrefix(d.Name, "g_type_") {
		return baseType(strings.TrimPrefix(d.Name, "g_type_"))
	}
	if v := g.freeDecl(d); v != nil && v.Kind == "VarDecl" {
		if g.statics[d.Name] == nil {
			g.statics[d.Name] = &ccell{g.ev(v.Inner[len(v.Inner)-1], &cenv{map[string]*ccell{}, map[string]clval{}})}
		}
		return g.statics[d.Name].v
	}
	unsup("name %s", d.Name)
	return nil
}

func arith(op string, a, b any) any {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		if !ok {
			y = float64(asInt(b))
		}
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return x / y
		case "<":
			return x < y
		case ">":
			return x > y
		case "<=":
			return x <= y
		case ">=":
			return x >= y
		}
		unsup("operator %s", op)
	}
	x, y := asInt(a), asInt(b)
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/", "%":
		if y == 0 {
			panic(cAbort{"division by zero"})
		}
		if op == "/" {
			return x / y
		}
		return x % y
	case "|":
		return x | y
	case "&":
		return x & y
	case "<<":
		return x << uint(y)
	case ">>":
		return x >> uint(y)
	case "<":
		return x < y
	case ">":
		return x > y
	case "<=":
		return x <= y
	case ">=":
		return x >= y
	}
	unsup("operator %s", op)
	return nil
}

func same(a, b any) bool {
	switch a.(type) {
	case int64, cchar, bool:
		switch b.(type) {
		case int64, cchar, bool:
			return asInt(a) == asInt(b)
		}
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(citer); ok {
		y, ok := b.(citer)
		return ok && x.i == y.i
	}
	switch a.(type) {
	case string, float64, *cobj, *cvec, *cmap:
		return a == b
	}
	unsup("comparison of %T", a)
	return false
}

func (g *cgen) evBinary(n *cnode, e *cenv) any {
	switch n.Opcode {
	case "&&":
		return asBool(g.ev(n.Inner[0], e)) && asBool(g.ev(n.Inner[1], e))
	case "||":
		return asBool(g.ev(n.Inner[0], e)) || asBool(g.ev(n.Inner[1], e))
	case ",":
		g.ev(n.Inner[0], e)
		return g.ev(n.Inner[1], e)
	case "=":
		v := g.ev(n.Inner[1], e)
		g.lv(n.Inner[0], e).set(v)
		return v
	}
	a, b := g.ev(n.Inner[0], e), g.ev(n.Inner[1], e)
	switch n.Opcode {
	case "==":
		return same(a, b)
	case "!=":
		return !same(a, b)
	}
	v := arith(n.Opcode, a, b)
	if i, ok := v.(int64); ok && i < 0 && strings.Contains(n.qual(), "unsigned") {
		// wraps; nothing in the fragment tells it from a huge number
		return int64(1) << 62
	}
	return v
}

func (g *cgen) args(in []*cnode, e *cenv) (out []any) {
	for _, x := range in {
		if x.Kind == "CXXDefaultArgExpr" {
			continue
		}
		out = append(out, g.ev(x, e))
	}
	return
}

// fill makes a container of the type of the values.
func fill(t string, in []any) any {
	if strings.Contains(t, "vector") {
		return &cvec{v: append([]any(nil), in...)}
	}
	if strings.Contains(t, "set<") {
		x := &cvec{set: true}
		for _, y := range in {
			x.insert(y)
		}
		return x
	}
	m := &cmap{}
	for _, y := range in {
		switch p := y.(type) {
		case *cpair:
			m.put(p.first, p.second)
		case *cvec:
			if len(p.v) != 2 {
				unsup("construction of %s", t)
			}
			m.put(p.v[0], p.v[1])
		default:
			unsup("construction of %s", t)
		}
	}
	return m
}

func (g *cgen) evConstruct(n *cnode, e *cenv) any {
	t := n.qual()
	a := g.args(n.Inner, e)
	switch {
	case strings.Contains(t, "(lambda") || strings.Contains(t, "function<"):
		if len(a) == 1 {
			return a[0]
		}
	case strings.Contains(t, "iterator"):
		if len(a) == 0 {
			return g.zero(t)
		}
		if len(a) == 1 {
			return a[0]
		}
	case strings.Contains(t, "vector"), strings.Contains(t, "map<"), strings.Contains(t, "set<"):
		if len(a) == 0 {
			return g.zero(t)
		}
		if l, ok := strip(n.Inner[0]), len(n.Inner) > 0; ok && l.Kind == "CXXStdInitializerListExpr" {
			return fill(t, a[0].(*cvec).v)
		}
		if x, ok := a[0].(int64); ok && strings.Contains(t, "vector") && x >= 0 && x < 100 && len(a) < 3 {
			y := &cvec{}
			for ; x > 0 && len(a) == 2; x-- {
				y.v = append(y.v, a[1])
			}
			if x == 0 {
				return y
			}
		}
		if len(a) == 1 {
			return copied(a[0])
		}
		if x, ok := a[0].(citer); ok && x.v != nil && !x.rev {
			return fill(t, x.v.v[x.i:a[1].(citer).i])
		}
	case !strings.Contains(t, "stream") && (strings.Contains(t, "basic_string") || strings.HasSuffix(t, "string")):
		switch len(a) {
		case 0:
			return ""
		case 1:
			if c, ok := a[0].(cchar); ok {
				return string([]byte{byte(c)})
			}
			if a[0] == nil {
				panic(cAbort{"a text is made from a null pointer"})
			}
			return asStr(a[0])
		case 2:
			if s, ok := a[0].(string); ok {
				k := int(asInt(a[1]))
				if strings.Contains(strip(n.Inner[0]).Kind, "Literal") {
					return s[:min(k, len(s))]
				}
				if k > len(s) || k < 0 {
					panic(cThrow{"std::out_of_range"})
				}
				return s[k:]
			}
			if _, ok := a[1].(cchar); ok {
				return strings.Repeat(string([]byte{byte(a[1].(cchar))}), int(asInt(a[0])))
			}
		case 3:
			if s, ok := a[0].(string); ok {
				return substr(s, asInt(a[1]), asInt(a[2]))
			}
		}
	case strings.Contains(t, "stream"):
		s := &cstream{b: &strings.Builder{}, prec: 6}
		if len(a) > 0 {
			if x, ok := a[0].(string); ok && strings.Contains(t, "stringstream") {
				s.b.WriteString(x)
			} else if strings.Contains(t, "ofstream") {
				g.files[asStr(a[0])] = s
			}
		}
		return s
	case strings.HasSuffix(t, "t_field"):
		f := &cobj{"t_field", map[string]any{"type": a[0], "name": a[1], "key": int64(0), "req": int64(2), "value": nil}}
		if len(a) > 2 {
			f.f["key"] = a[2]
		}
		return f
	case strings.HasSuffix(t, "t_struct"):
		s := newStructType("", false)
		if len(a) > 1 {
			s.f["name"] = a[1]
		}
		s.f["program"] = a[0]
		return s
	case strings.Contains(t, "pair<") && len(a) == 2:
		return &cpair{a[0], a[1]}
	}
	if len(a) == 1 {
		return a[0]
	}
	unsup("construction of %s", t)
	return nil
}

func substr(s string, pos, cnt int64) string {
	if pos < 0 || pos > int64(len(s)) {
		panic(cThrow{"std::out_of_range"})
	}
	s = s[pos:]
	if cnt >= 0 && cnt < int64(len(s)) {
		s = s[:cnt]
	}
	return s
}

func (g *cgen) write(s *cstream, v any) {
	switch x := v.(type) {
	case string:
		s.b.WriteString(x)
	case int64:
		s.b.WriteString(strconv.FormatInt(x, 10))
	case cchar:
		s.b.WriteByte(byte(x))
	case float64:
		s.b.WriteString(fmt.Sprintf("%.*g", int(s.prec), x))
	case bool:
		s.b.WriteString(strconv.FormatInt(asInt(x), 10))
	case cfun:
		switch x.name {
		case "endl":
			s.b.WriteByte('\n')
		case "flush":
		default:
			unsup("manipulator %s", x.name)
		}
	default:
		unsup("output of %T", v)
	}
}

func (g *cgen) evOperator(n *cnode, e *cenv) any {
	op := callee(n)
	in := n.Inner[1:]
	switch op {
	case "operator()":
		f := g.ev(in[0], e)
		if l, ok := f.(clam); ok {
			return g.apply(f, g.bind(l.d, in[1:], e)...)
		}
		return g.apply(f, g.args(in[1:], e)...)
	case "operator=", "operator+=":
		v := copied(g.ev(in[1], e))
		l := g.lv(in[0], e)
		if op == "operator+=" {
			if it, ok := l.get().(citer); ok {
				it.i += int(asInt(v))
				v = it
			} else {
				v = concat(l.get(), v)
			}
		} else if c, ok := v.(cchar); ok {
			if _, ok := l.get().(string); ok {
				v = string([]byte{byte(c)})
			}
		}
		l.set(v)
		return v
	case "operator++", "operator--":
		l := g.lv(in[0], e)
		it, ok := l.get().(citer)
		if !ok {
			unsup("%s on %T", op, l.get())
		}
		old := it
		if op == "operator++" {
			it.i++
		} else {
			it.i--
		}
		l.set(it)
		if len(in) > 1 {
			return old
		}
		return it
	case "operator[]":
		if l, ok := g.tryLv(n, e).(cref); ok {
			return l.get()
		}
		b, i := g.ev(in[0], e), g.ev(in[1], e)
		switch x := b.(type) {
		case *cvec:
			k := int(asInt(i))
			if k < 0 || k >= len(x.v) {
				panic(cAbort{fmt.Sprintf("element %d of %d is read", k, len(x.v))})
			}
			return x.v[k]
		case string:
			return cref{&ccell{x}, int(asInt(i))}.get()
		case *cmap:
			for _, p := range x.v {
				if same(p.first, i) {
					return p.second
				}
			}
			if t := n.qual(); t == "int" || t == "bool" || strings.Contains(t, "basic_string") && !strings.Contains(t, "<std::") || t == "std::string" {
				x.put(i, g.zero(t))
				return g.zero(t)
			}
			unsup("a key that is not in the map")
		}
		unsup("subscript of %T", b)
	}
	a := g.ev(in[0], e)
	if op == "operator*" || op == "operator->" {
		if it, ok := a.(citer); ok {
			return it.deref()
		}
		if op == "operator->" {
			return a
		}
		unsup("%s on %T", op, a)
	}
	if len(in) < 2 {
		unsup("%s", op)
	}
	b := g.ev(in[1], e)
	switch op {
	case "operator<<":
		s, ok := a.(*cstream)
		if !ok {
			unsup("<< on %T", a)
		}
		g.write(s, b)
		return s
	case "operator+":
		if it, ok := a.(citer); ok {
			it.i += int(asInt(b))
			return it
		}
		return concat(a, b)
	case "operator-":
		if it, ok := a.(citer); ok {
			if j, ok := b.(citer); ok {
				return int64(it.i - j.i)
			}
			it.i -= int(asInt(b))
			return it
		}
	case "operator==":
		return same(a, b)
	case "operator!=":
		return !same(a, b)
	case "operator<":
		if x, ok := a.(citer); ok {
			return x.i < b.(citer).i
		}
		return asStr(a) < asStr(b)
	}
	unsup("%s", op)
	return nil
}

func concat(a, b any) any {
	t := func(v any) string {
		if c, ok := v.(cchar); ok {
			return string([]byte{byte(c)})
		}
		return asStr(v)
	}
	return t(a) + t(b)
}

func (it citer) deref() any {
	i := it.i
	switch {
	case it.v != nil:
		if it.rev {
			i = len(it.v.v) - 1 - i
		}
		if i < 0 || i >= len(it.v.v) {
			panic(cAbort{"an iterator is read past the end"})
		}
		return it.v.v[i]
	case it.m != nil:
		if i < 0 || i >= len(it.m.v) {
			panic(cAbort{"an iterator is read past the end"})
		}
		return it.m.v[i]
	case it.s != nil:
		return cref{it.s, i}.get()
	}
	panic(cAbort{"an iterator is read before it is set"})
}

// bind evaluates the arguments for a function of the file.
func (g *cgen) bind(d *cnode, in []*cnode, e *cenv) (out []any) {
	for i, p := range d.params() {
		if i < len(in) && in[i].Kind != "CXXDefaultArgExpr" {
			t := p.Type.QualType
			if strings.HasSuffix(t, "&") && !strings.HasPrefix(t, "const ") {
				if l := g.tryLv(in[i], e); l != nil {
					out = append(out, l)
					continue
				}
			}
			out = append(out, g.ev(in[i], e))
			continue
		}
		var init *cnode
		for _, y := range p.Inner {
			if !strings.HasSuffix(y.Kind, "Comment") {
				init = y
			}
		}
		if init == nil {
			unsup("default of %s", p.Name)
		}
		out = append(out, g.ev(init, &cenv{map[string]*ccell{}, map[string]clval{}}))
	}
	return
}

func escapeC(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (g *cgen) ind() string { return strings.Repeat("  ", max(g.indents, 0)) }

// evCall is a call of a function or of a static method.
func (g *cgen) evCall(n *cnode, e *cenv) any {
	c := strip(n.Inner[0])
	name := callee(n)
	if c.ReferencedDecl != nil {
		if d := g.decls[c.ReferencedDecl.ID]; d != nil && d.Name == name {
			return g.call(d, g.bind(d, n.Inner[1:], e))
		}
	}
	switch name {
	case "transform":
		return g.evTransform(n, e)
	case "format_go_output":
		return true
	}
	if c.ReferencedDecl != nil && c.ReferencedDecl.Kind == "FunctionDecl" {
		switch name {
		case "mkdir", "chmod", "system", "fprintf", "printf", "isupper", "islower", "isalpha", "isdigit", "isalnum", "toupper", "tolower", "reverse", "sort", "find", "max", "min", "move", "to_string", "snprintf", "sprintf", "advance", "next", "prev", "distance", "any_of", "all_of", "none_of", "for_each", "find_if", "count", "strcmp", "strlen", "make_pair", "__assert_fail":
		default:
			if d := g.freeDecl(c.ReferencedDecl); d != nil && d.Kind == "FunctionDecl" {
				return g.call(d, g.bind(d, n.Inner[1:], e))
			}
		}
	}
	a := g.args(n.Inner[1:], e)
	switch name {
	case "get_true_type":
		return trueType(a[0])
	case "t_base_name":
		return cBaseNames[asInt(a[0])]
	case "mkdir", "chmod", "system", "fprintf", "printf":
		return int64(0)
	case "isupper", "islower", "isalpha", "isdigit", "isalnum", "toupper", "tolower":
		return cctype(name, asInt(a[0]))
	case "to_string":
		if f, ok := a[0].(float64); ok {
			return fmt.Sprintf("%f", f)
		}
		return fmt.Sprint(asInt(a[0]))
	case "__assert_fail":
		panic(cAbort{"an assertion fails"})
	case "make_pair":
		return &cpair{a[0], a[1]}
	case "strcmp":
		return int64(strings.Compare(asStr(a[0]), asStr(a[1])))
	case "strlen":
		return int64(len(asStr(a[0])))
	case "snprintf", "sprintf":
		k := 1
		if name == "snprintf" {
			k = 2
		}
		if len(a) > k {
			out := cprintf(asStr(a[k]), a[k+1:])
			n1 := int64(len(out))
			if k == 2 && n1 >= asInt(a[1]) {
				out = out[:max(0, asInt(a[1])-1)]
			}
			g.lv(n.Inner[1], e).set(out)
			return n1
		}
	case "advance":
		l := g.lv(n.Inner[1], e)
		if it, ok := l.get().(citer); ok {
			it.i += int(asInt(a[1]))
			l.set(it)
			return nil
		}
	case "next", "prev":
		if it, ok := a[0].(citer); ok {
			d := 1
			if len(a) > 1 {
				d = int(asInt(a[1]))
			}
			if name == "prev" {
				d = -d
			}
			it.i += d
			return it
		}
	case "distance":
		x, ok1 := a[0].(citer)
		y, ok2 := a[1].(citer)
		if ok1 && ok2 {
			return int64(y.i - x.i)
		}
	case "find", "count", "find_if", "any_of", "all_of", "none_of", "for_each", "reverse", "sort":
		if len(a) < 2 {
			break
		}
		x, ok1 := a[0].(citer)
		y, ok2 := a[1].(citer)
		if !ok1 || !ok2 || y.i < x.i {
			break
		}
		if name == "reverse" || name == "sort" {
			if x.v == nil || x.rev || x.v.set || len(a) != 2 || y.i > len(x.v.v) {
				break
			}
			part := x.v.v[x.i:y.i]
			if name == "sort" {
				sort.SliceStable(part, func(i, j int) bool { return less(part[i], part[j]) })
			} else {
				for i, j := 0, len(part)-1; i < j; i, j = i+1, j-1 {
					part[i], part[j] = part[j], part[i]
				}
			}
			return nil
		}
		k, hits := x, int64(0)
		for ; k.i < y.i; k.i++ {
			var hit bool
			if name == "find" || name == "count" {
				hit = same(k.deref(), a[2])
			} else if name == "for_each" {
				g.apply(a[2], k.deref())
			} else {
				hit = asBool(g.apply(a[2], k.deref()))
			}
			if hit {
				hits++
			}
			if hit && strings.HasPrefix(name, "find") {
				return k
			}
		}
		switch name {
		case "find", "find_if":
			return k
		case "count":
			return hits
		case "any_of":
			return hits > 0
		case "none_of":
			return hits == 0
		case "all_of":
			return hits == int64(y.i-x.i)
		}
		return nil
	case "move", "forward":
		return a[0]
	case "max", "min":
		if (name == "max") == (asInt(a[0]) > asInt(a[1])) {
			return a[0]
		}
		return a[1]
	}
	unsup("function %s", name)
	return nil
}

// cprintf knows the conversions of texts and whole numbers.
func cprintf(format string, a []any) string {
	var b strings.Builder
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			b.WriteByte(format[i])
			continue
		}
		i++
		for i < len(format) && (format[i] == 'l' || format[i] == 'z') {
			i++
		}
		if i < len(format) && format[i] == '%' {
			b.WriteByte('%')
			continue
		}
		if i >= len(format) || len(a) == 0 {
			unsup("format %q", format)
		}
		switch format[i] {
		case 's':
			b.WriteString(asStr(a[0]))
		case 'd', 'i', 'u':
			b.WriteString(strconv.FormatInt(asInt(a[0]), 10))
		case 'c':
			b.WriteByte(byte(asInt(a[0])))
		default:
			unsup("format %q", format)
		}
		a = a[1:]
	}
	return b.String()
}

func cctype(name string, c int64) int64 {
	up, lo, di := c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z', c >= '0' && c <= '9'
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	switch name {
	case "isupper":
		return b(up)
	case "islower":
		return b(lo)
	case "isalpha":
		return b(up || lo)
	case "isdigit":
		return b(di)
	case "isalnum":
		return b(up || lo || di)
	case "toupper":
		if lo {
			return c - 32
		}
	case "tolower":
		if up {
			return c + 32
		}
	}
	return c
}

func (g *cgen) evTransform(n *cnode, e *cenv) any {
	a := g.args(n.Inner[1:], e)
	if len(a) != 4 {
		unsup("transform")
	}
	from, ok1 := a[0].(citer)
	to, ok2 := a[1].(citer)
	out, ok3 := a[2].(citer)
	f, ok4 := a[3].(cfun)
	if !ok1 || !ok2 || !ok3 || !ok4 || from.s == nil || out.s == nil {
		unsup("transform")
	}
	for i, j := from.i, out.i; i < to.i; i, j = i+1, j+1 {
		cref{out.s, j}.set(cctype(f.name, asInt(cref{from.s, i}.get())))
	}
	return nil
}

func trueType(v any) any {
	for i := 0; i < 100; i++ {
		o, ok := v.(*cobj)
		if !ok || o.f["is_typedef"] != true {
			return v
		}
		v = o.f["type"]
	}
	return v
}

func (g *cgen) evMethod(n *cnode, e *cenv) any {
	m := strip(n.Inner[0])
	if m.Kind != "MemberExpr" {
		unsup("call of %s", m.Kind)
	}
	if d := g.decls[m.ReferencedMemberDecl]; d != nil && d.Name == m.Name {
		return g.call(d, g.bind(d, n.Inner[1:], e))
	}
	var recv any
	place := g.tryLv(m.Inner[0], e)
	if place != nil {
		recv = place.get()
	} else {
		recv = g.ev(m.Inner[0], e)
	}
	a := g.args(n.Inner[1:], e)
	switch x := recv.(type) {
	case cthis:
		return g.native(m.Name, a)
	case nil:
		panic(cAbort{"method " + m.Name + " of a null pointer"})
	case string:
		return g.strMethod(m.Name, x, place, a)
	case *cvec:
		switch m.Name {
		case "size":
			return int64(len(x.v))
		case "empty":
			return len(x.v) == 0
		case "begin", "cbegin":
			return citer{v: x}
		case "end", "cend":
			return citer{v: x, i: len(x.v)}
		case "rbegin":
			return citer{v: x, rev: true}
		case "rend":
			return citer{v: x, i: len(x.v), rev: true}
		case "push_back", "emplace_back":
			x.v = append(x.v, a[0])
			return nil
		case "pop_back":
			if len(x.v) == 0 {
				panic(cAbort{"an empty container is cut"})
			}
			x.v = x.v[:len(x.v)-1]
			return nil
		case "clear":
			x.v = nil
			return nil
		case "reserve":
			return nil
		case "insert", "emplace":
			if x.set && len(a) == 1 {
				return x.insert(a[0])
			}
			if len(a) == 3 {
				if at, ok := a[0].(citer); ok {
					if b, ok := a[1].(citer); ok && b.v != nil && !b.rev && !x.set {
						x.v = append(x.v[:at.i:at.i], append(append([]any(nil), b.v.v[b.i:a[2].(citer).i]...), x.v[at.i:]...)...)
						return nil
					}
				}
			}
		case "count", "find", "contains":
			if x.set && len(a) == 1 {
				i := 0
				for i < len(x.v) && !same(x.v[i], a[0]) {
					i++
				}
				switch m.Name {
				case "find":
					return citer{v: x, i: i}
				case "contains":
					return i < len(x.v)
				}
				return asInt(i < len(x.v))
			}
		case "at", "front", "back":
			i := 0
			if m.Name == "at" {
				i = int(asInt(a[0]))
			} else if m.Name == "back" {
				i = len(x.v) - 1
			}
			if i < 0 || i >= len(x.v) {
				panic(cThrow{"std::out_of_range"})
			}
			return x.v[i]
		}
	case *cmap:
		switch m.Name {
		case "size":
			return int64(len(x.v))
		case "empty":
			return len(x.v) == 0
		case "begin", "cbegin":
			return citer{m: x}
		case "end", "cend":
			return citer{m: x, i: len(x.v)}
		case "count", "find", "at", "insert", "emplace":
			if len(a) == 2 {
				a = []any{&cpair{a[0], a[1]}}
			}
			if len(a) != 1 {
				break
			}
			p, ins := a[0].(*cpair)
			k := a[0]
			if ins {
				k = p.first
			}
			find := func() int {
				i := 0
				for i < len(x.v) && !same(x.v[i].first, k) {
					i++
				}
				return i
			}
			i := find()
			switch m.Name {
			case "find":
				return citer{m: x, i: i}
			case "count":
				return asInt(i < len(x.v))
			case "at":
				if i == len(x.v) {
					panic(cThrow{"std::out_of_range"})
				}
				return x.v[i].second
			}
			if ins {
				if i == len(x.v) {
					x.put(p.first, p.second)
					return &cpair{citer{m: x, i: find()}, true}
				}
				return &cpair{citer{m: x, i: i}, false}
			}
		}
	case *cstream:
		switch m.Name {
		case "str":
			if len(a) > 0 {
				x.b.Reset()
				x.b.WriteString(asStr(a[0]))
				return nil
			}
			return x.b.String()
		case "open":
			y := &cstream{b: &strings.Builder{}, prec: 6}
			g.files[asStr(a[0])] = y
			if place != nil {
				place.set(y)
			}
			return nil
		case "close", "clear", "flush":
			return nil
		case "precision":
			old := x.prec
			if len(a) > 0 {
				x.prec = asInt(a[0])
			}
			return old
		case "operator<<":
			g.write(x, a[0])
			return x
		case "put":
			g.write(x, cchar(asInt(a[0])))
			return x
		}
	case *cobj:
		return g.objMethod(x, m.Name, a)
	}
	unsup("method %s of %T", m.Name, recv)
	return nil
}

func (g *cgen) objMethod(x *cobj, name string, a []any) any {
	switch name {
	case "append":
		f := a[0].(*cobj)
		x.f["members"].(*cvec).v = append(x.f["members"].(*cvec).v, f)
		return true
	case "get_sorted_members":
		v := append([]any(nil), x.f["members"].(*cvec).v...)
		sort.SliceStable(v, func(i, j int) bool { return v[i].(*cobj).f["key"].(int64) < v[j].(*cobj).f["key"].(int64) })
		return &cvec{v: v}
	case "get_namespace":
		if s, ok := x.f["namespace:"+asStr(a[0])].(string); ok {
			return s
		}
		return ""
	case "get_true_type":
		return trueType(x)
	case "set_name":
		x.f["name"] = a[0]
		return nil
	}
	if v, ok := x.f[strings.TrimPrefix(name, "get_")]; ok && strings.HasPrefix(name, "get_") {
		return v
	}
	if strings.HasPrefix(name, "is_") || strings.HasPrefix(name, "has_") {
		if v, ok := x.f[name]; ok {
			return v
		}
		return false
	}
	// a member the object's class does not have: the pointer was cast wrongly
	panic(cAbort{fmt.Sprintf("%s of a %s", name, x.kind)})
}

func (g *cgen) strMethod(name, s string, place clval, a []any) any {
	text := func(v any) string {
		if c, ok := v.(cchar); ok {
			return string([]byte{byte(c)})
		}
		return asStr(v)
	}
	put := func(v string) any {
		if place == nil {
			unsup("%s of a temporary text", name)
		}
		place.set(v)
		return v
	}
	switch name {
	case "size", "length":
		return int64(len(s))
	case "empty":
		return s == ""
	case "c_str", "data":
		return s
	case "clear":
		put("")
		return nil
	case "begin", "cbegin":
		if place == nil {
			place = &ccell{s}
		}
		return citer{s: place}
	case "end", "cend":
		if place == nil {
			place = &ccell{s}
		}
		return citer{s: place, i: len(s)}
	case "find":
		p := int64(0)
		if len(a) > 1 {
			p = asInt(a[1])
		}
		if p > int64(len(s)) || p < 0 {
			return int64(-1)
		}
		if i := strings.Index(s[p:], text(a[0])); i >= 0 {
			return int64(i) + p
		}
		return int64(-1)
	case "rfind", "find_last_of":
		if len(a) == 1 {
			return int64(strings.LastIndex(s, text(a[0])))
		}
	case "substr":
		p, c := int64(0), int64(-1)
		if len(a) > 0 {
			p = asInt(a[0])
		}
		if len(a) > 1 {
			c = asInt(a[1])
		}
		return substr(s, p, c)
	case "erase":
		p, c := int64(0), int64(-1)
		if len(a) > 0 {
			p = asInt(a[0])
		}
		if len(a) > 1 {
			c = asInt(a[1])
		}
		cut := substr(s, p, c)
		return put(s[:p] + s[int(p)+len(cut):])
	case "replace":
		if len(a) < 3 {
			break
		}
		if _, ok := a[0].(citer); ok {
			break
		}
		cut := substr(s, asInt(a[0]), asInt(a[1]))
		r := ""
		if len(a) == 4 {
			r = strings.Repeat(string([]byte{byte(asInt(a[3]))}), int(asInt(a[2])))
		} else {
			r = text(a[2])
		}
		return put(s[:asInt(a[0])] + r + s[int(asInt(a[0]))+len(cut):])
	case "append":
		if len(a) == 1 {
			return put(s + text(a[0]))
		}
		if len(a) == 2 {
			if c, ok := a[1].(cchar); ok {
				return put(s + strings.Repeat(string([]byte{byte(c)}), int(asInt(a[0]))))
			}
		}
	case "push_back":
		return put(s + text(a[0]))
	case "assign":
		if len(a) == 1 {
			return put(text(a[0]))
		}
	case "pop_back":
		if s == "" {
			panic(cAbort{"an empty text is cut"})
		}
		return put(s[:len(s)-1])
	case "front", "back":
		if s == "" {
			panic(cAbort{"a character of an empty text is read"})
		}
		if name == "front" {
			return cchar(s[0])
		}
		return cchar(s[len(s)-1])
	case "reserve":
		return nil
	case "insert":
		if p, ok := a[0].(int64); ok && len(a) == 2 {
			if p < 0 || p > int64(len(s)) {
				panic(cThrow{"std::out_of_range"})
			}
			return put(s[:p] + text(a[1]) + s[p:])
		}
	case "compare":
		if len(a) == 1 {
			return int64(strings.Compare(s, text(a[0])))
		}
	case "at":
		if i := asInt(a[0]); i < 0 || i >= int64(len(s)) {
			panic(cThrow{"std::out_of_range"})
		} else {
			return cchar(s[i])
		}
	}
	unsup("method %s of a text", name)
	return nil
}

// native is a method of t_generator, which the compiler provides.
func (g *cgen) native(name string, a []any) any {
	switch name {
	case "indent":
		if len(a) == 0 {
			return g.ind()
		}
		s, ok := a[0].(*cstream)
		if !ok {
			unsup("indent of %T", a[0])
		}
		s.b.WriteString(g.ind())
		return s
	case "indent_up":
		g.indents++
		return nil
	case "indent_down":
		g.indents--
		return nil
	case "tmp":
		s := asStr(a[0]) + strconv.Itoa(g.tmps)
		g.tmps++
		return s
	case "escape_string":
		return escapeC(asStr(a[0]))
	case "get_escaped_string":
		return escapeC(asStr(a[0].(*cobj).f["string"]))
	case "get_out_dir":
		return "gen-go/"
	case "get_true_type":
		return trueType(a[0])
	case "capitalize":
		s := asStr(a[0])
		if s != "" {
			s = strings.ToUpper(s[:1]) + s[1:]
		}
		return s
	case "decapitalize":
		s := asStr(a[0])
		if s != "" {
			s = strings.ToLower(s[:1]) + s[1:]
		}
		return s
	case "lowercase":
		return strings.ToLower(asStr(a[0]))
	case "generate_docstring_comment":
		s := a[0].(*cstream)
		start, prefix, text, end := asStr(a[1]), asStr(a[2]), asStr(a[3]), asStr(a[4])
		if start != "" {
			s.b.WriteString(g.ind() + start)
		}
		lines := strings.Split(text, "\n")
		for i, l := range lines {
			if l != "" || i < len(lines)-1 {
				s.b.WriteString(g.ind() + prefix + l + "\n")
			}
		}
		if end != "" {
			s.b.WriteString(g.ind() + end)
		}
		return nil
	}
	unsup("t_generator::%s", name)
	return nil
}
