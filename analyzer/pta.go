package main

// Points-to analysis: inclusion-based, one node per SSA value and context, one field level per
// object. There are two contexts: what runs while the package is initialised, and everything else;
// what is allocated while the package is initialised is thereby told apart from what is allocated
// at the same places later.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ptObj struct {
	id    int
	kind  string        // alloc, global, box, func, ext, param, user
	owner *ssa.Function // kind param: the function it is given to
	site  any
	initC bool // allocated while the package is initialised
	typ   types.Type
	fn    *ssa.Function // kind func
	glob  *ssa.Global
	full  bool // a slice's array without room behind it
	at    token.Pos
	// fields stored to
	fields []int
}

func (o *ptObj) String() string {
	if o.glob != nil {
		return "variable " + o.glob.Name()
	}
	return fmt.Sprintf("%s %v", o.kind, o.typ)
}

type ptLoc struct {
	o *ptObj
	f int // field of the outermost struct, or -1
}

type ptKey struct {
	init bool
	v    any // ssa.Value, *ptObj with field, *ssa.Function results, …
	i    int
}

type ptSet map[ptLoc]bool

type ptHit struct {
	fn   *ssa.Function
	pos  token.Pos
	o    *ptObj
	what string
}

type pta struct {
	p       *Program
	nodes   map[ptKey]ptSet
	objs    map[ptKey]*ptObj
	list    []*ptObj
	todo    map[ptKey]bool // functions per context
	order   []ptKey
	changed bool
	esc     ptSet
	hits    map[string]ptHit
	collect bool
	locked  map[*ssa.Function]map[ssa.Instruction]bool
	callers map[*ssa.Function][]ssa.Instruction
	edges   map[*ssa.Function]map[*ssa.Function]bool
	iters   int
	params  []*ptObj
	roots   []*ssa.Function
	given   []ptHit // slices of the caller written to
	keeps   []ptHit // slices of the caller kept
	fit     map[*types.Named][]*ssa.Parameter
}

func (a *pta) obj(init bool, site any, i int, kind string, t types.Type, at token.Pos) *ptObj {
	k := ptKey{init, site, i}
	if o := a.objs[k]; o != nil {
		return o
	}
	o := &ptObj{id: len(a.list), kind: kind, site: site, initC: init, typ: t, at: at}
	a.objs[k] = o
	a.list = append(a.list, o)
	return o
}

func (a *pta) node(k ptKey) ptSet {
	s := a.nodes[k]
	if s == nil {
		s = ptSet{}
		a.nodes[k] = s
	}
	return s
}

func (a *pta) add(k ptKey, l ptLoc) {
	s := a.node(k)
	if !s[l] {
		s[l] = true
		a.changed = true
	}
}

func (a *pta) addAll(k ptKey, s ptSet) {
	for l := range s {
		a.add(k, l)
	}
}

func content(o *ptObj, f int) ptKey { return ptKey{false, o, f + 1} }

// load gives what is stored at a location.
func (a *pta) load(l ptLoc) ptSet {
	r := ptSet{}
	for x := range a.nodes[content(l.o, -1)] {
		r[x] = true
	}
	if l.f >= 0 {
		for x := range a.nodes[content(l.o, l.f)] {
			r[x] = true
		}
		return r
	}
	for _, i := range l.o.fields {
		for x := range a.nodes[content(l.o, i)] {
			r[x] = true
		}
	}
	return r
}

func (a *pta) store(l ptLoc, s ptSet) {
	if len(s) > 0 {
		k := content(l.o, l.f)
		if l.f >= 0 && a.nodes[k] == nil {
			l.o.fields = append(l.o.fields, l.f)
		}
		a.addAll(k, s)
	}
}

// enter schedules a function in a context.
func (a *pta) enter(init bool, f *ssa.Function) {
	k := ptKey{init, f, 0}
	if !a.todo[k] {
		a.todo[k] = true
		a.order = append(a.order, k)
		a.changed = true
	}
}

func (a *pta) known(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if a.p.Owned(f) || a.p.ofStd(f) {
		return true
	}
	if f.Pkg == nil && f.Synthetic != "" {
		return true // wrappers and bound methods
	}
	return false
}

// val gives the points-to set of a value.
func (a *pta) val(init bool, v ssa.Value) ptSet {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		o := a.obj(true, v, 0, "global", types.Unalias(v.Type()).(*types.Pointer).Elem(), v.Pos())
		o.glob = v
		return ptSet{{o, -1}: true}
	case *ssa.Function:
		o := a.obj(init, v, 0, "func", v.Type(), v.Pos())
		o.fn = v
		return ptSet{{o, -1}: true}
	}
	return a.nodes[ptKey{init, v, 0}]
}

// pointerish tells that values of a type can lead to memory that is shared.
func pointerish(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerish(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func isPtr(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok
}

// box wraps a value in an interface: its dynamic type is kept.
func (a *pta) box(init bool, site any, i int, t types.Type, s ptSet, at token.Pos) *ptObj {
	o := a.obj(init, site, i, "box", t, at)
	if len(s) > 0 {
		a.addAll(content(o, -1), s)
	}
	return o
}

func (a *pta) unbox(s ptSet, t types.Type) ptSet {
	r := ptSet{}
	for l := range s {
		if l.o.kind != "box" {
			if l.o.kind == "ext" {
				r[l] = true
			}
			continue
		}
		if types.Identical(l.o.typ, t) {
			for x := range a.load(l) {
				r[x] = true
			}
		}
	}
	return r
}

func (a *pta) hit(init bool, f *ssa.Function, pos token.Pos, o *ptObj, what string) {
	if !a.collect || init || o.kind == "func" || o.kind == "box" {
		return
	}
	if o.kind == "param" {
		if !fills(o.owner) {
			a.given = append(a.given, ptHit{f, pos, o, what})
		}
		return
	}
	if !o.initC {
		return
	}
	a.hits[fmt.Sprintf("%p %d %d", f, pos, o.id)] = ptHit{f, pos, o, what}
}

// fills tells that a function is there to fill the slice it is given.
func fills(f *ssa.Function) bool { return strings.HasPrefix(f.Name(), "Read") }

func (a *pta) kept(f *ssa.Function, pos token.Pos, o *ptObj, what string) {
	if a.collect {
		a.keeps = append(a.keeps, ptHit{f, pos, o, what})
	}
}

// keep reports slices given by the caller among values stored at a place that outlives the call.
func (a *pta) keep(f *ssa.Function, pos token.Pos, l ptLoc, s ptSet) {
	if !a.collect || !a.esc[ptLoc{l.o, -1}] && l.o.kind != "global" {
		return
	}
	for x := range s {
		if x.o.kind == "param" {
			a.kept(f, pos, x.o, "is stored")
		}
	}
}

// instr gives the effect of an instruction.
func (a *pta) instr(init bool, f *ssa.Function, ins ssa.Instruction) {
	set := func(v ssa.Value, s ptSet) {
		if len(s) > 0 {
			a.addAll(ptKey{init, v, 0}, s)
		}
	}
	one := func(v ssa.Value, o *ptObj) { a.add(ptKey{init, v, 0}, ptLoc{o, -1}) }
	switch i := ins.(type) {
	case *ssa.Alloc:
		one(i, a.obj(init, i, 0, "alloc", types.Unalias(i.Type()).(*types.Pointer).Elem(), i.Pos()))
	case *ssa.MakeSlice:
		o := a.obj(init, i, 0, "alloc", i.Type(), i.Pos())
		o.full = i.Len == i.Cap
		one(i, o)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := i.(ssa.Value)
		one(v, a.obj(init, v, 0, "alloc", v.Type(), v.Pos()))
	case *ssa.MakeClosure:
		o := a.obj(init, i, 0, "func", i.Type(), i.Pos())
		o.fn = i.Fn.(*ssa.Function)
		one(i, o)
		for k, b := range i.Bindings {
			if s := a.val(init, b); len(s) > 0 {
				a.addAll(ptKey{init, o.fn.FreeVars[k], 0}, s)
			}
		}
	case *ssa.MakeInterface:
		one(i, a.box(init, i, 0, i.X.Type(), a.val(init, i.X), i.Pos()))
	case *ssa.ChangeInterface:
		set(i, a.val(init, i.X))
	case *ssa.ChangeType:
		set(i, a.val(init, i.X))
	case *ssa.MultiConvert:
		set(i, a.val(init, i.X))
	case *ssa.SliceToArrayPointer:
		set(i, a.val(init, i.X))
	case *ssa.Convert:
		if _, ok := types.Unalias(i.Type()).Underlying().(*types.Slice); ok {
			one(i, a.obj(init, i, 0, "alloc", i.Type(), i.Pos()))
		} else if pointerish(i.Type()) {
			set(i, a.val(init, i.X))
		}
	case *ssa.Phi:
		for _, e := range i.Edges {
			set(i, a.val(init, e))
		}
	case *ssa.Extract:
		if pointerish(i.Type()) {
			if c, ok := i.Tuple.(*ssa.Call); ok {
				a.addAll(ptKey{init, i, 0}, a.nodes[ptKey{init, c, i.Index + 1}])
			}
			set(i, a.nodes[ptKey{init, i.Tuple, 0}])
		}
	case *ssa.Field:
		if pointerish(i.Type()) {
			set(i, a.val(init, i.X))
		}
	case *ssa.Index:
		if pointerish(i.Type()) {
			set(i, a.val(init, i.X))
		}
	case *ssa.FieldAddr:
		for l := range a.val(init, i.X) {
			n := l
			if n.f < 0 {
				n.f = i.Field
			}
			a.add(ptKey{init, i, 0}, n)
		}
	case *ssa.IndexAddr:
		set(i, a.val(init, i.X))
	case *ssa.Slice:
		set(i, a.val(init, i.X))
		if al, ok := i.X.(*ssa.Alloc); ok && i.Low == nil && i.High == nil {
			a.obj(init, al, 0, "alloc", nil, 0).full = true
		}
	case *ssa.Lookup:
		if pointerish(i.Type()) {
			for l := range a.val(init, i.X) {
				set(i, a.load(l))
			}
		}
	case *ssa.Range:
		set(i, a.val(init, i.X))
	case *ssa.Next:
		for l := range a.val(init, i.Iter) {
			set(i, a.load(l))
		}
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL, token.ARROW:
			if pointerish(i.Type()) {
				for l := range a.val(init, i.X) {
					set(i, a.load(l))
				}
			}
		}
	case *ssa.Select:
		for _, s := range i.States {
			for l := range a.val(init, s.Chan) {
				if s.Send != nil {
					a.store(l, a.val(init, s.Send))
				} else {
					set(i, a.load(l))
				}
			}
		}
	case *ssa.Send:
		for l := range a.val(init, i.Chan) {
			a.store(l, a.val(init, i.X))
		}
		for x := range a.val(init, i.X) {
			if x.o.kind == "param" {
				a.kept(f, i.Pos(), x.o, "is sent to another goroutine")
			}
		}
	case *ssa.TypeAssert:
		s := a.val(init, i.X)
		if it, ok := types.Unalias(i.AssertedType).Underlying().(*types.Interface); !ok {
			s = a.unbox(s, i.AssertedType)
		} else {
			r := ptSet{}
			for l := range s {
				if l.o.kind != "box" || types.Implements(l.o.typ, it) {
					r[l] = true
				}
			}
			s = r
		}
		set(i, s)
	case *ssa.Store:
		for l := range a.val(init, i.Addr) {
			a.store(l, a.val(init, i.Val))
			a.keep(f, i.Pos(), l, a.val(init, i.Val))
			if !a.lockedAt(i) && !setter(f, l.o.glob) {
				a.hit(init, f, i.Pos(), l.o, "assigns to")
			}
		}
	case *ssa.MapUpdate:
		for l := range a.val(init, i.Map) {
			a.store(l, a.val(init, i.Key))
			a.store(l, a.val(init, i.Value))
			a.keep(f, i.Pos(), l, a.val(init, i.Value))
			if !a.lockedAt(i) {
				a.hit(init, f, i.Pos(), l.o, "stores an entry in")
			}
		}
	case *ssa.Return:
		for k, r := range i.Results {
			if pointerish(r.Type()) {
				if s := a.val(init, r); len(s) > 0 {
					a.addAll(ptKey{init, f, k + 1}, s)
				}
			}
		}
	case ssa.CallInstruction:
		if g, ok := i.(*ssa.Go); ok && a.collect {
			vs := append([]ssa.Value{g.Call.Value}, g.Call.Args...)
			if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
				vs = append(vs, mc.Bindings...)
			}
			for _, v := range vs {
				for l := range a.val(init, v) {
					for x := range a.load(l) {
						if x.o.kind == "param" {
							a.kept(f, i.Pos(), x.o, "is used by a goroutine")
						}
					}
					if l.o.kind == "param" {
						a.kept(f, i.Pos(), l.o, "is used by a goroutine")
					}
				}
			}
		}
		a.call(init, f, i)
	}
}

// setter tells that a function is there for user code to set a variable.
func setter(f *ssa.Function, g *ssa.Global) bool {
	return g != nil && f.Signature.Recv() == nil && len(f.Params) == 1 && token.IsExported(f.Name()) && f.Name() == "Set"+g.Name()
}

// bind passes arguments to a function and its results to the call.
func (a *pta) bind(init bool, from *ssa.Function, ci ssa.CallInstruction, g *ssa.Function, args []ptSet) {
	if a.edges[from] == nil {
		a.edges[from] = map[*ssa.Function]bool{}
	}
	a.edges[from][g] = true
	a.enter(init, g)
	for k, s := range args {
		if k < len(g.Params) && len(s) > 0 {
			a.addAll(ptKey{init, g.Params[k], 0}, s)
		}
	}
	if v := ci.Value(); v != nil {
		n := g.Signature.Results().Len()
		for k := 0; k < n; k++ {
			s := a.nodes[ptKey{init, g, k + 1}]
			if len(s) == 0 {
				continue
			}
			if n == 1 {
				a.addAll(ptKey{init, v, 0}, s)
			} else {
				a.addAll(ptKey{init, v, k + 1}, s)
			}
		}
	}
}

func (a *pta) call(init bool, f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	var args []ptSet
	for _, x := range c.Args {
		if pointerish(x.Type()) {
			args = append(args, a.val(init, x))
		} else {
			args = append(args, nil)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(init, f, ci, b, args)
		return
	}
	if c.IsInvoke() {
		for l := range a.val(init, c.Value) {
			if l.o.kind != "box" {
				continue
			}
			m := a.method(l.o.typ, c.Method)
			if m == nil {
				continue
			}
			if a.known(m) {
				a.bind(init, f, ci, m, append([]ptSet{a.load(l)}, args...))
			} else {
				a.external(init, f, ci, c.Method.Name(), "", append([]ptSet{a.load(l)}, args...), l.o.typ)
			}
		}
		a.external(init, f, ci, c.Method.Name(), "", append([]ptSet{nil}, args...), nil)
		return
	}
	if g := c.StaticCallee(); g != nil {
		if once := syncOnce(g); once && len(args) == 2 {
			for l := range args[1] {
				if l.o.kind == "func" && l.o.fn != nil {
					// what a sync.Once runs is part of the initialisation
					for _, v := range l.o.fn.FreeVars {
						a.addAll(ptKey{true, v, 0}, a.nodes[ptKey{init, v, 0}])
					}
					a.enter(true, l.o.fn)
				}
			}
			return
		}
		if a.known(g) {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for k, b := range mc.Bindings {
					if s := a.val(init, b); len(s) > 0 {
						a.addAll(ptKey{init, g.FreeVars[k], 0}, s)
					}
				}
			}
			a.bind(init, f, ci, g, args)
			return
		}
		pkg := ""
		if g.Pkg != nil {
			pkg = g.Pkg.Pkg.Path()
		} else if o := g.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
		var rt types.Type
		if r := g.Signature.Recv(); r != nil {
			rt = r.Type()
		}
		a.external(init, f, ci, g.Name(), pkg, args, rt)
		return
	}
	for l := range a.val(init, c.Value) {
		if l.o.kind == "func" && l.o.fn != nil && a.known(l.o.fn) {
			a.bind(init, f, ci, l.o.fn, args)
		}
	}
}

func syncOnce(g *ssa.Function) bool {
	return g.Name() == "Do" && g.Signature.Recv() != nil && strings.HasSuffix(g.Signature.Recv().Type().String(), "sync.Once")
}

func (a *pta) method(t types.Type, m *types.Func) *ssa.Function {
	sel := a.p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return a.p.ssa.MethodValue(sel)
}

func (a *pta) builtin(init bool, f *ssa.Function, ci ssa.CallInstruction, b *ssa.Builtin, args []ptSet) {
	switch b.Name() {
	case "append":
		v := ci.Value()
		if v == nil {
			return
		}
		k := ptKey{init, v, 0}
		o := a.obj(init, v, 0, "alloc", v.Type(), v.Pos())
		a.add(k, ptLoc{o, -1})
		var add ptSet
		if len(args) > 1 {
			add = ptSet{}
			for l := range args[1] {
				for x := range a.load(l) {
					add[x] = true
				}
			}
		}
		a.store(ptLoc{o, -1}, add)
		for l := range args[0] {
			a.store(ptLoc{o, -1}, a.load(l))
			if l.o.full {
				continue
			}
			a.add(k, l)
			a.store(l, add)
			if !a.lockedAt(ci) {
				a.hit(init, f, ci.Pos(), l.o, "appends in place to")
			}
		}
	case "copy":
		for l := range args[0] {
			for s := range args[1] {
				a.store(l, a.load(s))
			}
			if !a.lockedAt(ci) {
				a.hit(init, f, ci.Pos(), l.o, "copies into")
			}
		}
	case "delete", "clear":
		for l := range args[0] {
			if !a.lockedAt(ci) {
				a.hit(init, f, ci.Pos(), l.o, "deletes from")
			}
		}
	case "ssa:wrapnilchk":
		if v := ci.Value(); v != nil && len(args[0]) > 0 {
			a.addAll(ptKey{init, v, 0}, args[0])
		}
	}
}

// sharedTypes are types of the standard library that may be used from several goroutines at once.
func sharedType(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "log", "regexp", "time", "reflect", "net", "os", "errors", "encoding/base64", "encoding/binary", "net/url", "log/slog", "context", "runtime":
		return true
	case "net/http":
		return n.Obj().Name() != "Header" && n.Obj().Name() != "Request"
	}
	return false
}

var pureMethods = map[string]bool{"Len": true, "Cap": true, "Bytes": true, "String": true, "Front": true, "Back": true, "Next": true, "Prev": true, "Get": true, "Values": true, "Sign": true, "Cmp": true, "Int64": true, "Error": true, "Size": true, "Available": true, "Uint64": true, "IsInt64": true, "BitLen": true, "Text": true, "Unwrap": true, "Is": true, "As": true}

func intoSlice(name string) bool {
	for _, p := range []string{"Put", "Encode", "Decode", "Read", "NewBuffer", "Append", "Sort", "Stable", "Reverse", "Fill", "Copy", "Slice", "Strings", "Ints", "Float64s", "Shuffle", "Insert", "Delete", "Compact"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// external gives the effect of a function without source here.
func (a *pta) external(init bool, f *ssa.Function, ci ssa.CallInstruction, name, pkg string, args []ptSet, recv types.Type) {
	quiet := a.lockedAt(ci) || pkg == "sync" || pkg == "sync/atomic" || pkg == "log"
	cm := ci.Common()
	argType := func(k int) types.Type {
		if cm.IsInvoke() {
			k--
		}
		if k < 0 {
			return recv
		}
		if k < len(cm.Args) {
			return cm.Args[k].Type()
		}
		return nil
	}
	var flow ptSet
	for k, s := range args {
		t := argType(k)
		for l := range s {
			if a.early(l) {
				if flow == nil {
					flow = ptSet{}
				}
				flow[l] = true
			}
			if quiet || t == nil {
				continue
			}
			isRecv := k == 0 && recv != nil
			target := l
			tt := t
			if types.IsInterface(t) && l.o.kind == "box" && !isRecv {
				// the function may call any method of the interface
				it := types.Unalias(t).Underlying().(*types.Interface)
				if !types.Implements(l.o.typ, it) {
					continue
				}
				ms := types.NewMethodSet(it)
				for m := 0; m < ms.Len(); m++ {
					fn := ms.At(m).Obj().(*types.Func)
					if g := a.method(l.o.typ, fn); g != nil && a.known(g) {
						a.enter(init, g)
						if len(g.Params) > 0 {
							a.addAll(ptKey{init, g.Params[0], 0}, a.load(l))
						}
					} else if !pureMethods[fn.Name()] && !sharedType(l.o.typ) && isPtr(l.o.typ) {
						for x := range a.load(l) {
							a.hit(init, f, ci.Pos(), x.o, "passes to "+name+", which may change,")
						}
					}
				}
				continue
			}
			switch {
			case isRecv:
				if isPtr(tt) && !sharedType(tt) && !pureMethods[name] {
					a.hit(init, f, ci.Pos(), target.o, "calls "+name+" of")
				}
			case isPtr(tt):
				if !sharedType(tt) && !a.ownType(tt) {
					a.hit(init, f, ci.Pos(), target.o, "passes the address to "+name+" of")
				}
			default:
				if _, ok := types.Unalias(tt).Underlying().(*types.Slice); ok && intoSlice(name) {
					first := k == 0 || k == 1 && recv != nil || name == "ReadFull" || name == "ReadAtLeast"
					if first && !(strings.HasPrefix(name, "Append") && target.o.full) {
						a.hit(init, f, ci.Pos(), target.o, "lets "+name+" write to")
					}
				}
			}
		}
	}
	// functions given to it may be called
	for _, s := range args {
		for l := range s {
			if l.o.kind == "func" && l.o.fn != nil && a.known(l.o.fn) {
				a.enter(init, l.o.fn)
			}
		}
	}
	// the bytes.Buffer or Reader made of a slice keeps it; what these and bufio.Readers hand out is theirs
	if v := ci.Value(); v != nil {
		if (name == "NewBuffer" || name == "NewReader") && pkg == "bytes" && len(args) == 1 {
			o := a.obj(init, v, 0, "ext", v.Type(), v.Pos())
			a.store(ptLoc{o, -1}, args[0])
			a.keep(f, ci.Pos(), ptLoc{o, -1}, args[0])
		}
		if recv != nil && (name == "Bytes" || name == "Next" || name == "Peek" || name == "ReadSlice" || name == "ReadLine" || name == "AvailableBuffer") {
			o := a.obj(init, v, 0, "ext", v.Type(), v.Pos())
			for l := range args[0] {
				a.store(l, ptSet{{o, -1}: true})
			}
		}
	}
	// what it was given may be kept by the receiver and come back
	if recv != nil && len(args) > 0 {
		for l := range args[0] {
			for _, s := range args[1:] {
				for x := range s {
					if a.early(x) {
						a.store(l, ptSet{x: true})
					}
				}
			}
		}
	}
	if v := ci.Value(); v != nil && pointerish(v.Type()) {
		o := a.obj(init, v, 0, "ext", v.Type(), v.Pos())
		add := func(k ptKey) {
			a.add(k, ptLoc{o, -1})
			if recv != nil && len(args) > 0 {
				for l := range args[0] {
					for x := range a.load(l) {
						if a.early(x) {
							a.add(k, x)
						}
					}
				}
			}
		}
		if len(flow) > 0 {
			a.addAll(content(o, -1), flow)
		}
		if n := cm.Signature().Results().Len(); n == 1 {
			add(ptKey{init, v, 0})
		} else {
			for k := 0; k < n; k++ {
				if pointerish(cm.Signature().Results().At(k).Type()) {
					add(ptKey{init, v, k + 1})
				}
			}
		}
	}
	// and it may be kept by whoever implements the method: user code has it
	if cm.IsInvoke() && recv == nil {
		for l := range flow {
			a.escape(l)
		}
	}
}

// early tells that a value leads to memory made while the package is initialised.
func (a *pta) early(l ptLoc) bool {
	if l.o.kind == "box" {
		for x := range a.load(l) {
			if x.o.initC && x.o.kind != "func" {
				return true
			}
		}
		return false
	}
	return l.o.initC && l.o.kind != "func"
}

func (a *pta) ownType(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == a.p.Thrift.Pkg {
		_, st := n.Underlying().(*types.Struct)
		return st
	}
	return false
}

// escape notes that code outside the library has a value.
func (a *pta) escape(l ptLoc) {
	if a.esc[l] {
		return
	}
	a.esc[l] = true
	a.changed = true
	for x := range a.load(l) {
		a.escape(x)
	}
}

// lockedAt tells that a lock is held at an instruction: a Lock of the same function dominates it and
// no Unlock stands between, or every caller holds one.
func (a *pta) lockedAt(ins ssa.Instruction) bool { return a.lockedIn(ins, 3) }

func (a *pta) lockedIn(ins ssa.Instruction, depth int) bool {
	f := ins.Parent()
	m := a.locked[f]
	if m == nil {
		m = locksHeld(f)
		a.locked[f] = m
	}
	if m[ins] {
		return true
	}
	if depth == 0 {
		return false
	}
	cs := a.callers[f]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if c.Parent() == f || !a.lockedIn(c, depth-1) {
			return false
		}
	}
	return true
}

func lockOp(ins ssa.Instruction) (op int, lock ssa.Value) {
	c, ok := ins.(*ssa.Call)
	if !ok {
		return 0, nil
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(c.Call.Args) == 0 {
		return 0, nil
	}
	if r := g.Signature.Recv().Type().String(); r != "*sync.Mutex" && r != "*sync.RWMutex" {
		return 0, nil
	}
	switch g.Name() {
	case "Lock":
		return 1, c.Call.Args[0]
	case "Unlock":
		return -1, c.Call.Args[0]
	}
	return 0, nil
}

// globalLock tells that a lock is one all goroutines use.
func globalLock(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return false
		}
	}
}

// locksHeld gives the instructions of a function at which a lock taken in it is held on every path.
func locksHeld(f *ssa.Function) map[ssa.Instruction]bool {
	r := map[ssa.Instruction]bool{}
	any := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if op, l := lockOp(i); op != 0 && globalLock(l) {
				any = true
			}
		}
	}
	if !any {
		return r
	}
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		out[b] = true
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			h := len(b.Preds) > 0
			for _, p := range b.Preds {
				h = h && out[p]
			}
			for _, i := range b.Instrs {
				if op, l := lockOp(i); op != 0 && globalLock(l) {
					h = op > 0
				}
			}
			if out[b] != h {
				out[b] = h
				changed = true
			}
		}
	}
	for _, b := range f.Blocks {
		h := len(b.Preds) > 0
		for _, p := range b.Preds {
			h = h && out[p]
		}
		for _, i := range b.Instrs {
			if op, l := lockOp(i); op != 0 && globalLock(l) {
				h = op > 0
			} else if h {
				r[i] = true
			}
		}
	}
	return r
}

// fits are the parameters of functions user code can call that take a pointer to a type.
func (a *pta) fits(n *types.Named, roots []*ssa.Function) []*ssa.Parameter {
	if r, ok := a.fit[n]; ok {
		return r
	}
	var r []*ssa.Parameter
	pt := types.NewPointer(n)
	for _, f := range roots {
		for _, q := range f.Params {
			if types.Identical(q.Type(), pt) {
				r = append(r, q)
			} else if it, ok := types.Unalias(q.Type()).Underlying().(*types.Interface); ok && types.Implements(pt, it) {
				r = append(r, q)
			}
		}
	}
	a.fit[n] = r
	return r
}

// run computes the fixpoint.
func runPTA(p *Program) *pta {
	a := &pta{p: p, nodes: map[ptKey]ptSet{}, objs: map[ptKey]*ptObj{}, todo: map[ptKey]bool{}, esc: ptSet{}, hits: map[string]ptHit{}, locked: map[*ssa.Function]map[ssa.Instruction]bool{}, callers: map[*ssa.Function][]ssa.Instruction{}, edges: map[*ssa.Function]map[*ssa.Function]bool{}, fit: map[*types.Named][]*ssa.Parameter{}}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						a.callers[g] = append(a.callers[g], i)
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	var initFn []*ssa.Function
	for q := range p.std {
		if f := q.Func("init"); f != nil && len(f.Blocks) > 0 {
			initFn = append(initFn, f)
		}
	}
	initFn = append(initFn, p.Thrift.Func("init"))
	isInit := map[*ssa.Function]bool{}
	for _, f := range initFn {
		isInit[f] = true
		a.enter(true, f)
	}
	for _, f := range p.all {
		if isInit[f] || strings.HasPrefix(f.Name(), "init#") || f.Pkg == nil && f.Synthetic == "" {
			continue
		}
		if f.Parent() != nil {
			continue // entered where it is made
		}
		if token.IsExported(f.Name()) {
			roots = append(roots, f)
			a.enter(false, f)
		}
	}
	// receivers user code makes itself, and slices it gives
	for _, f := range roots {
		if f.Signature.Recv() == nil || len(f.Params) == 0 {
			continue
		}
		if pt, ok := types.Unalias(f.Params[0].Type()).(*types.Pointer); ok {
			o := a.obj(false, pt.Elem().String(), 0, "user", pt.Elem(), 0)
			a.esc[ptLoc{o, -1}] = true
			a.add(ptKey{false, f.Params[0], 0}, ptLoc{o, -1})
		}
		if token.IsExported(f.Name()) {
			for k, q := range f.Params[1:] {
				if isByteSlice(q.Type()) {
					o := a.obj(false, f, k+1, "param", q.Type(), q.Pos())
					o.owner = f
					a.add(ptKey{false, q, 0}, ptLoc{o, -1})
					a.params = append(a.params, o)
				}
			}
		}
	}
	// user code can read exported variables
	var mem []string
	for n := range p.Thrift.Members {
		mem = append(mem, n)
	}
	sort.Strings(mem)
	var globals []*ssa.Global
	for _, n := range mem {
		if g, ok := p.Thrift.Members[n].(*ssa.Global); ok {
			globals = append(globals, g)
		}
	}
	step := func() {
		for k := 0; k < len(a.order); k++ {
			w := a.order[k]
			f := w.v.(*ssa.Function)
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					a.instr(w.init, f, i)
				}
			}
		}
	}
	for {
		a.changed = false
		a.iters++
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "round", a.iters, len(a.order), len(a.list), len(a.esc))
		}
		step()
		for _, g := range globals {
			if token.IsExported(g.Name()) {
				for l := range a.val(true, g) {
					for x := range a.load(l) {
						a.escape(x)
					}
				}
			}
		}
		for _, f := range roots {
			for k := 0; k < f.Signature.Results().Len(); k++ {
				for l := range a.nodes[ptKey{false, f, k + 1}] {
					a.escape(l)
				}
			}
		}
		for l := range a.esc {
			for x := range a.load(l) {
				a.escape(x)
			}
		}
		// user code passes what it has to any function it fits
		for l := range a.esc {
			if l.o.kind == "box" || l.o.typ == nil || l.f >= 0 {
				continue
			}
			n, ok := types.Unalias(l.o.typ).(*types.Named)
			if !ok || n.Obj().Pkg() != p.Thrift.Pkg {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); !ok {
				continue
			}
			for _, q := range a.fits(n, roots) {
				if types.IsInterface(q.Type()) {
					b := a.box(l.o.initC, l.o, -7, types.NewPointer(n), ptSet{l: true}, l.o.at)
					a.add(ptKey{false, q, 0}, ptLoc{b, -1})
				} else {
					a.add(ptKey{false, q, 0}, l)
				}
			}
		}
		if !a.changed {
			break
		}
		if a.iters > 60 {
			return a
		}
	}
	a.collect = true
	a.roots = roots
	step()
	return a
}
