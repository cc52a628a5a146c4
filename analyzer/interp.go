package main

// Disjunctive abstract interpreter over go/ssa. Each abstract state carries an
// environment of value terms, a heap keyed by address terms, path facts and the
// trace of effects on the outside (calls it does not look into). Branches whose
// condition the facts decide are followed one way, others split the state;
// states are joined again at function returns. Loops are unrolled while their
// bound is decided by constants or up to a small limit and then widened: what
// differs between two arrivals at the header is replaced by an unknown until
// nothing new changes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ events

type EvKind int

const (
	EvCall  EvKind = iota // call not looked into
	EvGo                  // go statement
	EvDefer               // deferred call registered (not yet run)
	EvSend
	EvRecv
	EvMark
	EvStore // store to a tracked location (only when cfg.TrackStores)
	EvClose
)

type Event struct {
	kind      EvKind
	name      string // "pkg.Func", "(pkg.Type).Method" or "iface pkg.I.Method"
	method    string // bare method/function name
	fn        *types.Func
	recv      *Val
	args      []*Val
	snaps     []*Val // contents of slice arguments at the time of the call
	res       []*Val
	pos       token.Pos
	in        *ssa.Function
	callee    *ssa.Function // for EvGo/EvDefer
	dfr       bool          // executed as deferred call
	panicking bool
}

type Trace struct {
	ev   *Event
	prev *Trace
	n    int
}

func (t *Trace) list() []*Event {
	if t == nil {
		return nil
	}
	r := make([]*Event, t.n)
	for x := t; x != nil; x = x.prev {
		r[x.n-1] = x.ev
	}
	return r
}

// ------------------------------------------------------------------ state

type State struct {
	heap  map[*Val]*Val
	def   map[*Val]string // object address -> default content: "zero" or version label
	facts *Facts
	trace *Trace
	fresh map[string]int
	log   []string // branch log for diagnosis
	ext   map[string]int
}

func newState() *State {
	return &State{heap: map[*Val]*Val{}, def: map[*Val]string{}, facts: newFacts(), fresh: map[string]int{}, ext: map[string]int{}}
}

func (s *State) clone() *State {
	if len(s.log) > 100 {
		s.log = s.log[len(s.log)-60:]
	}
	return &State{heap: cp(s.heap), def: cp(s.def), facts: s.facts.clone(), trace: s.trace, fresh: cp(s.fresh), log: append([]string(nil), s.log...), ext: cp(s.ext)}
}

func (s *State) label(base string) string {
	n := s.fresh[base]
	s.fresh[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

func (s *State) add(e *Event) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{e, s.trace, n}
}

// ------------------------------------------------------------------ config

type Exit int

const (
	XReturn Exit = iota
	XPanic
	XCut // back edge of a widened loop, or a path that never ends
)

type Outcome struct {
	st   *State
	kind Exit
	rets []*Val
	why  string
	pos  token.Pos
}

type Config struct {
	NoMerge        bool                                   // keep paths apart instead of joining states
	Unroll         int                                    // arrivals at a loop header before widening
	MaxForks       int                                    // path budget
	MaxSteps       int                                    // instruction budget
	MaxDepth       int                                    // inlining depth
	Opaque         func(f *ssa.Function) bool             // functions not to look into
	Pure           func(f *ssa.Function) bool             // opaque functions whose result is a function of the arguments
	OnCall         func(in *Interp, st *State, ev *Event) // after an opaque call was recorded
	Model          func(in *Interp, st *State, c *callInfo) (outs []modelOut, ok bool)
	MayPanic       func(ev *Event) bool
	RunGo          bool // run bodies of go statements in line
	Coll           bool // channels as queues, maps built in the analysed code as finite
	OnMake         func(in *Interp, st *State, instr ssa.Instruction, n *Val)
	OnSlice        func(in *Interp, st *State, instr ssa.Instruction, base, lo, hi, max *Val)
	OnIndex        func(in *Interp, st *State, instr ssa.Instruction, n, idx *Val)
	OnDeref        func(in *Interp, st *State, instr ssa.Instruction, ptr *Val, what string)
	OnStore        func(in *Interp, st *State, instr ssa.Instruction, addr, val *Val)
	OnAssert       func(in *Interp, st *State, instr *ssa.TypeAssert, x *Val)
	Coalesce       bool // follow switch cases with several values once per interval
	Recur          int  // recursive activations looked into beyond the first
	Globals        bool // resolve globals through the package initialiser
	Devirt         func(t types.Type) bool
	PossiblePanics bool // fork a panic outcome on undecided nil dereference/assertion/index
}

type modelOut struct {
	st    *State
	res   []*Val
	panic string
}

type callInfo struct {
	fn    *types.Func // static or interface method
	sfn   *ssa.Function
	name  string
	recv  *Val
	args  []*Val // without receiver for methods
	sig   *types.Signature
	pos   token.Pos
	in    *ssa.Function
	iface bool
}

type Interp struct {
	prog   *Program
	cfg    Config
	steps  int
	forks  int
	err    error // undecided: budget exceeded or unsupported construct
	depth  int
	funcs  map[*ssa.Function]bool // functions entered
	base   *State                 // state after package initialisation
	constG map[*ssa.Global]bool   // globals only written during initialisation
	stack  []*ssa.Function
}

type deferRec struct {
	call *ssa.CallCommon
	pos  token.Pos
	fn   *Val
	recv *Val
	args []*Val
}

type loopHdr struct {
	n       int
	widened bool
	env     map[ssa.Value]*Val
	heap    map[*Val]*Val
	def     map[*Val]string
	wkeys   map[any]bool
	label   string
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]*Val
	free      []*Val
	defers    []deferRec
	hdrs      map[*ssa.BasicBlock]*loopHdr
	panicV    *Val
	recovered bool
	id        string
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = cp(f.env)
	g.defers = append([]deferRec(nil), f.defers...)
	g.hdrs = make(map[*ssa.BasicBlock]*loopHdr, len(f.hdrs))
	for k, v := range f.hdrs {
		h := *v
		h.wkeys = cp(v.wkeys)
		g.hdrs[k] = &h
	}
	return &g
}

func newInterp(p *Program, cfg Config) *Interp {
	if cfg.Unroll == 0 {
		cfg.Unroll = 3
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4_000_000
	}
	if cfg.MaxForks == 0 {
		cfg.MaxForks = 250_000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	return &Interp{prog: p, cfg: cfg, funcs: map[*ssa.Function]bool{}}
}

func (in *Interp) fail(f string, a ...any) {
	if in.err == nil {
		in.err = fmt.Errorf(f, a...)
	}
}

// Call interprets fn from st.
func (in *Interp) Call(fn *ssa.Function, args []*Val, st *State) []Outcome {
	return in.callFn(fn, args, nil, st)
}

func (in *Interp) callFn(fn *ssa.Function, args, free []*Val, st *State) []Outcome {
	if in.err != nil {
		return nil
	}
	if in.depth > in.cfg.MaxDepth {
		in.fail("inlining depth exceeded at %s", fn)
		return nil
	}
	if len(fn.Blocks) == 0 {
		in.fail("no body for %s", fn)
		return nil
	}
	in.funcs[fn] = true
	in.depth++
	in.stack = append(in.stack, fn)
	defer func() { in.depth--; in.stack = in.stack[:len(in.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]*Val{}, free: free, hdrs: map[*ssa.BasicBlock]*loopHdr{}}
	fr.id = st.label("frame:" + fn.RelString(nil))
	if len(args) != len(fn.Params) {
		in.fail("arity mismatch calling %s: %d args", fn, len(args))
		return nil
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	var out []Outcome
	in.block(st, fr, fn.Blocks[0], nil, &out)
	return in.merge(out)
}

// merge joins outcomes with the same observable content, intersecting facts.
func (in *Interp) merge(out []Outcome) []Outcome {
	if len(out) < 2 || in.cfg.NoMerge {
		return out
	}
	var res []Outcome
	idx := map[string]int{}
	for _, o := range out {
		if o.kind == XCut {
			res = append(res, o)
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d|%s|", o.kind, o.why)
		for _, r := range o.rets {
			fmt.Fprintf(&sb, "%d,", r.id)
		}
		fmt.Fprintf(&sb, "|%p|", o.st.trace)
		k := sb.String()
		if i, ok := idx[k]; ok && sameHeap(res[i].st, o.st) {
			res[i].st.facts.meet(o.st.facts)
			for l, n := range o.st.fresh {
				if res[i].st.fresh[l] < n {
					res[i].st.fresh[l] = n
				}
			}
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

func sameHeap(a, b *State) bool {
	if len(a.heap) != len(b.heap) || len(a.def) != len(b.def) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.def {
		if b.def[k] != v {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ blocks

func dominates(a, b *ssa.BasicBlock) bool { return a.Dominates(b) }

func (in *Interp) block(st *State, fr *Frame, b, prev *ssa.BasicBlock, out *[]Outcome) {
	if in.err != nil {
		return
	}
	// phis
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if prev != nil && len(phis) > 0 {
		ei := -1
		for i, p := range b.Preds {
			if p == prev {
				ei = i
			}
		}
		vals := make([]*Val, len(phis))
		for i, p := range phis {
			vals[i] = in.val(st, fr, p.Edges[ei])
		}
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	if prev != nil {
		if isHeader(b) {
			if dominates(b, prev) { // back edge
				h := fr.hdrs[b]
				if h == nil {
					h = &loopHdr{wkeys: map[any]bool{}}
					fr.hdrs[b] = h
				}
				h.n++
				if h.n >= in.cfg.Unroll && !in.constLoop(st, fr, b) || h.n > 300 {
					if !in.widen(st, fr, b, phis, h) {
						*out = append(*out, Outcome{st: st, kind: XCut, why: "loop", pos: firstPos(b)})
						return
					}
				}
			} else {
				fr.hdrs[b] = &loopHdr{wkeys: map[any]bool{}}
			}
			h := fr.hdrs[b]
			h.env = map[ssa.Value]*Val{}
			for _, p := range phis {
				h.env[p] = fr.env[p]
			}
			h.heap = cp(st.heap)
			h.def = cp(st.def)
		}
	}
	in.instrs(st, fr, b, len(phis), out)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// constLoop: the loop exit test is decided by constants here, keep unrolling.
func (in *Interp) constLoop(st *State, fr *Frame, b *ssa.BasicBlock) bool {
	// evaluate the header's own instructions up to its If on a scratch copy
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return in.bitLoop(fr, b)
	}
	scratch := fr.clone()
	s2 := st.clone()
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi:
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field:
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return false
			}
			in.simple(s2, scratch, i)
		case *ssa.FieldAddr, *ssa.IndexAddr:
			in.simple(s2, scratch, i)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				scratch.env[x] = in.builtinLen(s2, scratch, x)
				continue
			}
			return false
		case *ssa.If:
		case *ssa.Next:
			return in.rangeConst(s2, scratch, x)
		case *ssa.Extract:
		default:
			return false
		}
	}
	if c, ok := scratch.env[last.Cond]; ok && c.isConst() {
		return in.progresses(st, fr, b)
	}
	if c, ok := scratch.env[last.Cond]; ok && st.facts.eval(c) != 0 {
		return false
	}
	return in.bitLoop(fr, b)
}

// progresses: something the header looks at changed since the last arrival.
func (in *Interp) progresses(st *State, fr *Frame, b *ssa.BasicBlock) bool {
	h := fr.hdrs[b]
	if h == nil {
		return true
	}
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi:
			if h.env[x] != fr.env[x] {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				for k, v := range st.heap {
					if h.heap[k] != v && types.Identical(v.typ, x.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// bitLoop: some loop-carried integer is a bit vector being shifted out, or a
// constant counter bounded by the number of bits; such loops end by themselves.
func (in *Interp) bitLoop(fr *Frame, b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v := fr.env[p]
		if v != nil && v.op == OBits {
			bs := toBits(v)
			if bs[len(bs)-1].k == 0 && fr.hdrs[b].n < 12 {
				return true
			}
		}
	}
	return false
}

func (in *Interp) rangeConst(st *State, fr *Frame, n *ssa.Next) bool { return false }

// widen replaces what changed since the last arrival by unknowns. It returns
// false when nothing new changed (fixpoint).
func (in *Interp) widen(st *State, fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, h *loopHdr) bool {
	changed := false
	pfx := fmt.Sprintf("loop:%s:%d", fr.id, b.Index)
	for _, p := range phis {
		if h.wkeys[p] {
			fr.env[p] = h.env[p]
			continue
		}
		if h.env[p] != fr.env[p] {
			h.wkeys[p] = true
			changed = true
			fr.env[p] = in.unknown(st, p.Type(), fmt.Sprintf("%s:%s", pfx, p.Name()))
		}
	}
	keys := map[*Val]bool{}
	for k := range st.heap {
		keys[k] = true
	}
	for k := range h.heap {
		keys[k] = true
	}
	var ks []*Val
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		if h.wkeys[k] {
			if v, ok := h.heap[k]; ok {
				st.heap[k] = v
			}
			continue
		}
		nv, ov := st.heap[k], h.heap[k]
		if nv == ov {
			continue
		}
		if ov == nil && !in.liveBefore(k, h) {
			continue // object allocated in this iteration
		}
		h.wkeys[k] = true
		changed = true
		t := nv
		if t == nil {
			t = ov
		}
		st.heap[k] = in.unknown(st, t.typ, fmt.Sprintf("%s:@%d", pfx, k.id))
	}
	if !changed && h.widened {
		return false
	}
	if !changed {
		// nothing carried around the loop: one more round adds nothing
		if h.n > in.cfg.Unroll {
			return false
		}
	}
	h.widened = true
	return true
}

func rootObj(a *Val) *Val {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
	}
	return a
}

func (in *Interp) liveBefore(k *Val, h *loopHdr) bool {
	r := rootObj(k)
	if r.op != OObj {
		return true
	}
	_, ok := h.def[r]
	return ok
}

// unknown makes a fresh unknown of a type (composite types are decomposed).
func (in *Interp) unknown(st *State, t types.Type, label string) *Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Val, u.NumFields())
		l := st.label(label)
		for i := range args {
			args[i] = in.unknown(st, u.Field(i).Type(), l+"."+u.Field(i).Name())
		}
		return mk(OStruct, t, "", args...)
	case *types.Tuple:
		args := make([]*Val, u.Len())
		l := st.label(label)
		for i := range args {
			args[i] = in.unknown(st, u.At(i).Type(), fmt.Sprintf("%s.%d", l, i))
		}
		return mk(OTuple, t, "", args...)
	}
	return atom(t, st.label(label))
}

// ------------------------------------------------------------------ values

func (in *Interp) val(st *State, fr *Frame, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Basic); ok && x.Type().Underlying().(*types.Basic).Kind() != types.UntypedNil && x.Type().Underlying().(*types.Basic).Kind() != types.UnsafePointer {
				return zeroVal(x.Type())
			}
			return zeroVal(x.Type())
		}
		c := x.Value
		if isInt(x.Type()) {
			bi := constant.ToInt(c)
			switch y := constant.Val(bi).(type) {
			case int64:
				return mkBig(x.Type(), big.NewInt(y))
			case *big.Int:
				return mkBig(x.Type(), y)
			}
		}
		return mkConst(c, x.Type())
	case *ssa.Function:
		return I.mk(&Val{op: OFn, typ: x.Type(), aux: x.RelString(nil), obj: x}, "")
	case *ssa.Global:
		return globalAddr(x)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.free) {
					return fr.free[i]
				}
			}
		}
		return atom(x.Type(), "free:"+fr.fn.RelString(nil)+"."+x.Name())
	case *ssa.Builtin:
		return atom(x.Type(), "builtin:"+x.Name())
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	in.fail("no value for %s in %s", v.Name(), fr.fn)
	return atom(v.Type(), "undef:"+v.Name())
}

func globalAddr(g *ssa.Global) *Val {
	return I.mk(&Val{op: OGlobal, typ: g.Type(), aux: g.RelString(nil), obj: g}, "")
}

func elemType(ptr types.Type) types.Type {
	if p, ok := ptr.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func fieldAddr(base *Val, i int) *Val {
	st := elemType(base.typ).Underlying().(*types.Struct)
	f := st.Field(i)
	return I.mk(&Val{op: OFieldAddr, typ: types.NewPointer(f.Type()), aux: f.Name(), args: []*Val{base}, obj: i}, "")
}

func indexAddr(base *Val, idx *Val, et types.Type) *Val {
	if !types.Identical(idx.typ, tInt) {
		idx = convert(idx, tInt)
	}
	return mk(OIndexAddr, types.NewPointer(et), "", base, idx)
}

// load reads the content of an address.
func (in *Interp) load(st *State, addr *Val) *Val {
	t := elemType(addr.typ)
	if t == nil {
		return atom(types.Typ[types.Invalid], "badload")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v, ok := st.heap[addr]; ok {
			return v
		}
		args := make([]*Val, u.NumFields())
		for i := range args {
			args[i] = in.load(st, fieldAddr(addr, i))
		}
		return mk(OStruct, t, "", args...)
	case *types.Array:
		if u.Len() <= 256 {
			args := make([]*Val, u.Len())
			for i := range args {
				args[i] = in.load(st, indexAddr(addr, mkInt(int64(i)), u.Elem()))
			}
			return mk(OStruct, t, "", args...)
		}
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if addr.op == OIndexAddr && addr.aux == "" {
		if whole, ok := st.heap[contentKey(addr.args[0])]; ok {
			return st.facts.simp(seqIndex(whole, addr.args[1], t))
		}
	}
	root := rootObj(addr)
	if d, ok := st.def[root]; ok {
		if d == "zero" {
			if addr.op == OIndexAddr {
				if _, c := addr.args[1].intConst(); !c {
					// symbolic index into a partially written array
					if in.anyElem(st, addr.args[0]) {
						v := in.unknown(st, t, "elem")
						return v
					}
				}
			}
			return zeroVal(t)
		}
		return mk(OLoad, t, d, addr)
	}
	if root.op == OGlobal && in.base != nil {
		g := root.obj.(*ssa.Global)
		if in.constG[g] {
			if addr.op == OGlobal {
				return zeroVal(t)
			}
		}
	}
	if root.op == OGlobal {
		g := root.obj.(*ssa.Global)
		if g.Pkg == nil || g.Pkg.Pkg != in.prog.Thrift.Pkg {
			v := mk(OLoad, t, "", addr)
			if isIface(t) && !st.facts.isnil[v] && types.Identical(t, types.Universe.Lookup("error").Type()) {
				st.facts.isnil[v] = false // package-level error values of the standard library are not nil
			}
			if p, ok := t.Underlying().(*types.Pointer); ok && p != nil {
				st.facts.isnil[v] = false
			}
			return v
		}
	}
	return mk(OLoad, t, "", addr)
}

func (in *Interp) anyElem(st *State, base *Val) bool {
	for k := range st.heap {
		if k.op == OIndexAddr && k.args[0] == base {
			return true
		}
	}
	return false
}

// store writes a value, decomposing structs and arrays.
func (in *Interp) store(st *State, addr, v *Val) {
	t := elemType(addr.typ)
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				var fv *Val
				if v.op == OStruct {
					fv = v.args[i]
				} else {
					fv = fieldOf(v, u, i)
				}
				in.store(st, fieldAddr(addr, i), fv)
			}
			return
		case *types.Array:
			if u.Len() <= 256 && v.op == OStruct {
				for i := range v.args {
					in.store(st, indexAddr(addr, mkInt(int64(i)), u.Elem()), v.args[i])
				}
				return
			}
		}
	}
	if addr.op == OIndexAddr && addr.aux == "" {
		if whole, ok := st.heap[contentKey(addr.args[0])]; ok {
			i := addr.args[1]
			i1 := fromLin(tInt, linAdd(toLin(i), linForm{c: big.NewInt(1)}, 1))
			st.heap[contentKey(addr.args[0])] = mkSeq(whole.typ, []*Val{seqSub(whole, mkInt(0), i), v, seqSub(whole, i1, mkLen(whole))}, []byte("ses"))
			return
		}
	}
	if addr.op == OIndexAddr {
		if _, c := addr.args[1].intConst(); !c {
			// unknown index: forget the other elements
			for k := range st.heap {
				if k.op == OIndexAddr && k.args[0] == addr.args[0] && k != addr {
					st.heap[k] = in.unknown(st, st.heap[k].typ, "clob")
				}
			}
			r := rootObj(addr)
			if st.def[r] == "zero" {
				st.def[r] = st.label("clobbered")
			}
		} else {
			for k := range st.heap {
				if k.op == OIndexAddr && k.args[0] == addr.args[0] && k != addr {
					if _, c := k.args[1].intConst(); !c {
						delete(st.heap, k)
					}
				}
			}
		}
	}
	if addr.op == OFieldAddr {
		// possible aliases of the same field
		root := rootObj(addr)
		for k := range st.heap {
			if k != addr && k.op == OFieldAddr && k.aux == addr.aux && k.obj == addr.obj && types.Identical(k.args[0].typ, addr.args[0].typ) {
				kr := rootObj(k)
				if !in.mayAlias(k.args[0], addr.args[0]) || kr.op == OObj && root.op == OObj && kr != root {
					continue
				}
				st.heap[k] = in.unknown(st, st.heap[k].typ, "alias")
			}
		}
	}
	st.heap[addr] = v
}

func (in *Interp) mayAlias(a, b *Val) bool {
	if a == b {
		return true
	}
	if a.op == OObj && b.op == OObj {
		return false
	}
	fresh := func(x *Val) bool { return rootObj(x).op == OObj }
	// a fresh object cannot be reached through a value that existed before
	if fresh(a) != fresh(b) {
		o := a
		if fresh(a) {
			o = b
		}
		if o.op == OAtom || o.op == OLoad || o.op == OFieldAddr && rootObj(o).op == OAtom {
			return false
		}
	}
	if a.op == OFieldAddr && b.op == OFieldAddr && (a.aux != b.aux) {
		return false
	}
	return true
}

func fieldOf(v *Val, u *types.Struct, i int) *Val {
	if v.op == OStruct {
		return v.args[i]
	}
	return I.mk(&Val{op: OField, typ: u.Field(i).Type(), aux: u.Field(i).Name(), args: []*Val{v}}, "")
}

// content snapshots a slice value into an immutable sequence.
func (in *Interp) content(st *State, v *Val) *Val {
	switch v.op {
	case OView:
		base, off, n := v.args[0], v.args[1], v.args[2]
		et := v.typ.Underlying().(*types.Slice).Elem()
		if c, ok := st.heap[contentKey(base)]; ok {
			// whole-object content
			return seqSub(c, off, fromLin(tInt, linAdd(toLin(off), toLin(n), 1)))
		}
		o, ok1 := off.i64()
		l, ok2 := n.i64()
		if ok1 && ok2 && l <= 4096 {
			vs := make([]*Val, l)
			ks := make([]byte, l)
			for i := range vs {
				vs[i] = in.load(st, indexAddr(base, mkInt(o+int64(i)), et))
				ks[i] = 'e'
			}
			return mkSeq(v.typ, vs, ks)
		}
		return seqAtom(v.typ, st.label("content"), n)
	case OConv:
		if v.aux == "ct" {
			return in.content(st, v.args[0])
		}
		if isString(v.args[0].typ) && !isString(v.typ) {
			return mkSeq(v.typ, []*Val{v.args[0]}, []byte{'s'})
		}
	}
	if isString(v.typ) {
		return mkSeq(types.NewSlice(tByte), []*Val{v}, []byte{'s'})
	}
	if v.isNil() {
		return mkSeq(v.typ, nil, nil)
	}
	return v
}

func contentKey(base *Val) *Val { return mk(OIndexAddr, base.typ, "whole", base, mkInt(0)) }

// setContent overwrites the elements of a slice with a new sequence of the same length.
func (in *Interp) setContent(st *State, v *Val, c *Val) {
	if v.op != OView {
		return
	}
	base, off, n := v.args[0], v.args[1], v.args[2]
	et := v.typ.Underlying().(*types.Slice).Elem()
	if whole, ok := st.heap[contentKey(base)]; ok {
		end := fromLin(tInt, linAdd(toLin(off), toLin(n), 1))
		st.heap[contentKey(base)] = mkSeq(whole.typ, []*Val{seqSub(whole, mkInt(0), off), c, seqSub(whole, end, mkLen(whole))}, []byte("sss"))
		return
	}
	o, ok1 := off.i64()
	l, ok2 := n.i64()
	if ok1 && ok2 && l <= 4096 {
		for i := int64(0); i < l; i++ {
			st.heap[indexAddr(base, mkInt(o+i), et)] = seqIndex(c, mkInt(i), et)
		}
		return
	}
	// symbolic extent: whole-object content when it covers it all
	for k := range st.heap {
		if k.op == OIndexAddr && k.args[0] == base {
			delete(st.heap, k)
		}
	}
	st.def[rootObj(base)] = st.label("clobbered")
	if z, ok := off.i64(); ok && z == 0 {
		st.heap[contentKey(base)] = c
	}
}

// simple evaluates an instruction without control or effects.
func (in *Interp) simple(st *State, fr *Frame, i ssa.Instruction) (panicWhy string) {
	set := func(v ssa.Value, x *Val) { fr.env[v] = x }
	switch x := i.(type) {
	case *ssa.BinOp:
		a, b := in.val(st, fr, x.X), in.val(st, fr, x.Y)
		a, b = st.facts.simpConst(a), st.facts.simpConst(b)
		if x.Op == token.QUO || x.Op == token.REM {
			if isInt(a.typ) {
				if z, ok := b.i64(); ok && z == 0 {
					return "integer division by zero"
				}
			}
		}
		if (x.Op == token.EQL || x.Op == token.NEQ) && a.op == OIface && b.op == OIface && types.Identical(a.args[0].typ, b.args[0].typ) && !types.Comparable(a.args[0].typ) {
			return "comparing uncomparable type " + types.TypeString(a.args[0].typ, qual)
		}
		set(x, binop(x.Op, a, b, x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := in.val(st, fr, x.X)
			if p.isNil() || st.facts.isnil[p] {
				return "nil pointer dereference"
			}
			if in.cfg.OnDeref != nil {
				in.cfg.OnDeref(in, st, i, p, "load")
			}
			set(x, in.load(st, p))
		case token.NOT:
			set(x, mkNot(in.val(st, fr, x.X)))
		case token.SUB:
			a := in.val(st, fr, x.X)
			if isInt(a.typ) {
				set(x, fromLin(a.typ, linScale(toLin(a), big.NewInt(-1))))
			} else if a.isConst() {
				set(x, mkConst(constant.UnaryOp(token.SUB, a.cv(), 0), a.typ))
			} else {
				set(x, mk(OUn, x.Type(), "-", a))
			}
		case token.XOR:
			a := in.val(st, fr, x.X)
			bs := toBits(a)
			nb := make([]*Bit, len(bs))
			for k := range bs {
				nb[k] = bnot(bs[k])
			}
			set(x, fromBits(a.typ, nb))
		}
	case *ssa.Convert:
		a := in.val(st, fr, x.X)
		set(x, in.conv(st, a, x.Type()))
	case *ssa.ChangeType:
		set(x, changeType(in.val(st, fr, x.X), x.Type()))
	case *ssa.ChangeInterface:
		a := in.val(st, fr, x.X)
		set(x, retypeIface(a, x.Type()))
	case *ssa.MakeInterface:
		a := in.val(st, fr, x.X)
		set(x, mk(OIface, x.Type(), "", a))
	case *ssa.FieldAddr:
		p := in.val(st, fr, x.X)
		if p.isNil() || st.facts.isnil[p] {
			return "nil pointer dereference"
		}
		if in.cfg.OnDeref != nil {
			in.cfg.OnDeref(in, st, i, p, "field")
		}
		set(x, fieldAddr(p, x.Field))
	case *ssa.Field:
		a := in.val(st, fr, x.X)
		set(x, fieldOf(a, a.typ.Underlying().(*types.Struct), x.Field))
	case *ssa.IndexAddr:
		p := in.val(st, fr, x.X)
		idx := st.facts.simpConst(in.val(st, fr, x.Index))
		if idx.typ != tInt && isInt(idx.typ) {
			idx = convert(idx, tInt)
		}
		et := elemType(x.Type())
		if p.isNil() || st.facts.isnil[p] {
			if _, ok := p.typ.Underlying().(*types.Slice); ok {
				return "index out of range"
			}
			return "nil pointer dereference"
		}
		n := mkLen(p)
		if why := in.bounds(st, i, n, idx); why != "" {
			return why
		}
		if p.op == OView {
			set(x, indexAddr(p.args[0], fromLin(tInt, linAdd(toLin(p.args[1]), toLin(idx), 1)), et))
		} else if p.op == OSeq || p.op == OSub || p.op == OConv {
			if writtenTo(x) {
				v := in.materialise(st, fr, x.X, p)
				set(x, indexAddr(v.args[0], fromLin(tInt, linAdd(toLin(v.args[1]), toLin(idx), 1)), et))
				break
			}
			// immutable sequence: materialise the element
			a := indexAddr(mk(OObj, types.NewPointer(et), fmt.Sprintf("seqelem%d", p.id)), idx, et)
			st.heap[a] = seqIndex(in.content(st, p), idx, et)
			set(x, a)
		} else {
			set(x, indexAddr(p, idx, et))
		}
	case *ssa.Index:
		a := in.val(st, fr, x.X)
		idx := st.facts.simpConst(in.val(st, fr, x.Index))
		if why := in.bounds(st, i, mkLen(a), idx); why != "" {
			return why
		}
		set(x, seqIndex(a, idx, x.Type()))
	case *ssa.Extract:
		t := in.val(st, fr, x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			set(x, t.args[x.Index])
		} else {
			set(x, I.mk(&Val{op: OField, typ: x.Type(), aux: fmt.Sprint(x.Index), args: []*Val{t}}, ""))
		}
	default:
		in.fail("unsupported simple instruction %T", i)
	}
	return ""
}

func (f *Facts) simpConst(v *Val) *Val {
	if v.isConst() {
		return v
	}
	if c, ok := f.eq[v]; ok {
		return c
	}
	if v.typ != nil && isInt(v.typ) && (len(f.rng) > 0 || len(f.bit) > 0) && width(v.typ) > 0 {
		r := rangeOf(v, f)
		if r.lo.Cmp(r.hi) == 0 {
			return mkBig(v.typ, r.lo)
		}
	}
	return v
}

func (in *Interp) bounds(st *State, i ssa.Instruction, n, idx *Val) string {
	if in.cfg.OnIndex != nil {
		in.cfg.OnIndex(in, st, i, n, idx)
	}
	if !isInt(idx.typ) {
		return ""
	}
	c := idx
	if st.facts.eval(mkLtInt(c, mkIntT(c.typ, 0))) > 0 {
		return "index out of range"
	}
	if types.Identical(c.typ, tInt) && st.facts.eval(mkLtInt(c, n)) < 0 {
		return "index out of range"
	}
	return ""
}

func retypeIface(a *Val, t types.Type) *Val {
	if a.op == OIface {
		return mk(OIface, t, "", a.args[0])
	}
	if a.isNil() {
		return mkNil(t)
	}
	return a // same dynamic value; static interface type is irrelevant
}

func changeType(a *Val, t types.Type) *Val {
	if a.isNil() {
		return mkNil(t)
	}
	if isIface(t) && isIface(a.typ) {
		return retypeIface(a, t)
	}
	if types.Identical(a.typ, t) {
		return a
	}
	switch a.op {
	case OConv:
		if a.aux == "ct" {
			return changeType(a.args[0], t)
		}
	case OConst:
		return mkConst(a.cv(), t)
	case OStruct, OTuple:
		return mk(OStruct, t, a.aux, a.args...)
	case OView, OSeq:
		return mk(a.op, t, a.aux, a.args...)
	}
	if isInt(t) && isInt(a.typ) {
		return convert(a, t)
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return a
	}
	return mk(OConv, t, "ct", a)
}

func convert(a *Val, t types.Type) *Val {
	if isInt(a.typ) && isInt(t) {
		if c, ok := a.intConst(); ok {
			return mkBig(t, c)
		}
		w := width(t)
		bs := toBits(a)
		nb := make([]*Bit, w)
		for i := range nb {
			if i < len(bs) {
				nb[i] = bs[i]
			} else if isUnsigned(a.typ) {
				nb[i] = I.B0
			} else {
				nb[i] = bs[len(bs)-1]
			}
		}
		return fromBits(t, nb)
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// concatOf is the text of a byte sequence made of texts and known bytes as their concatenation.
func concatOf(c *Val, t types.Type) *Val {
	r, texts := mkStr(""), 0
	for i, x := range c.args {
		if c.aux[i] == 'e' {
			n, ok := x.i64()
			if !ok || n >= 0x80 {
				return nil
			}
			r = mkConcat(tString, r, mkStr(string(rune(n))))
			continue
		}
		if !isString(x.typ) {
			return nil
		}
		texts++
		r = mkConcat(tString, r, changeType2(x, tString))
	}
	if texts == 0 {
		return nil
	}
	return changeType2(r, t)
}

func (in *Interp) conv(st *State, a *Val, t types.Type) *Val {
	if r := convert(a, t); r != nil {
		return r
	}
	if isString(t) && isString(a.typ) {
		return changeType2(a, t)
	}
	if isString(t) && isByteSlice(a.typ) {
		c := in.content(st, a)
		// string of a constant byte sequence
		if c.op == OSeq {
			if len(c.args) == 0 {
				return mkConst(constant.MakeString(""), t)
			}
			if len(c.args) == 1 && c.aux == "s" && isString(c.args[0].typ) {
				return changeType2(c.args[0], t)
			}
			var sb []byte
			ok := true
			for i, x := range c.args {
				n, isc := x.i64()
				if c.aux[i] != 'e' || !isc {
					ok = false
					break
				}
				sb = append(sb, byte(n))
			}
			if ok {
				return mkConst(constant.MakeString(string(sb)), t)
			}
			if r := concatOf(c, t); r != nil {
				return r
			}
		}
		return mk(OConv, t, "", c)
	}
	if isByteSlice(t) && isString(a.typ) {
		// fresh backing array holding the bytes of the string
		o := in.newObj(st, types.NewPointer(t), "bytes-of-string")
		st.heap[contentKey(o)] = mkSeq(t, []*Val{a}, []byte{'s'})
		return mk(OView, t, "", o, mkInt(0), mkLen(a))
	}
	if isString(t) && isInt(a.typ) {
		if n, ok := a.i64(); ok {
			return mkConst(constant.MakeString(string(rune(n))), t)
		}
		return mk(OConv, t, "rune", a)
	}
	if isFloat(t) && isInt(a.typ) {
		a = peel(a) // a widened integer is the same number
	}
	if isFloat(t) && a.isConst() && (isInt(a.typ) || isFloat(a.typ)) {
		return mkConst(constant.ToFloat(a.cv()), t)
	}
	if isInt(t) && isFloat(a.typ) {
		if f, ok := a.floatConst(); ok {
			bf := big.NewFloat(f)
			bi, _ := bf.Int(nil)
			return mkBig(t, bi)
		}
	}
	if isFloat(t) && isFloat(a.typ) && types.Identical(t.Underlying(), a.typ.Underlying()) {
		return changeType2(a, t)
	}
	return mk(OConv, t, "", a)
}

func changeType2(a *Val, t types.Type) *Val {
	if types.Identical(a.typ, t) {
		return a
	}
	if a.isConst() {
		return mkConst(a.cv(), t)
	}
	if a.op == OConv && a.aux == "ct" {
		return changeType2(a.args[0], t)
	}
	return mk(OConv, t, "ct", a)
}

func (in *Interp) newObj(st *State, t types.Type, base string) *Val {
	o := mk(OObj, t, st.label(base))
	st.def[o] = "zero"
	return o
}

// writtenTo says whether an address may be used for more than loads.
func writtenTo(x ssa.Value) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if writtenTo(u) {
				return true
			}
		case *ssa.IndexAddr:
			if writtenTo(u) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// materialise gives a slice that is known by its content only (the result of
// append) an array of its own, so that its elements can be written.
func (in *Interp) materialise(st *State, fr *Frame, sv ssa.Value, v *Val) *Val {
	et := v.typ.Underlying().(*types.Slice).Elem()
	if sl, ok := sv.(*ssa.Slice); ok {
		if whole := in.val(st, fr, sl.X); whole.typ != nil && isSlice(whole.typ) {
			if whole.op != OView {
				whole = in.materialise(st, fr, sl.X, whole)
			}
			lo := mkInt(0)
			if sl.Low != nil {
				lo = convert(in.val(st, fr, sl.Low), tInt)
			}
			view := mk(OView, v.typ, "", whole.args[0], fromLin(tInt, linAdd(toLin(whole.args[1]), toLin(lo), 1)), mkLen(v))
			fr.env[sv] = view
			return view
		}
	}
	o := in.newObj(st, types.NewPointer(et), "appended")
	st.heap[contentKey(o)] = in.content(st, v)
	view := mk(OView, v.typ, "", o, mkInt(0), mkLen(v))
	for k, e := range fr.env {
		if e == v {
			fr.env[k] = view
		}
	}
	fr.env[sv] = view
	if ld, ok := sv.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if a := in.val(st, fr, ld.X); st.heap[a] == v {
			st.heap[a] = view
		}
	}
	return view
}

func binop(op token.Token, a, b *Val, t types.Type) *Val {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		switch op {
		case token.GTR:
			a, b = b, a
		case token.LEQ:
			if !isFloat(a.typ) {
				return mkNot(ltAny(b, a))
			}
			return leFloat(a, b)
		case token.GEQ:
			if !isFloat(a.typ) {
				return mkNot(ltAny(a, b))
			}
			return leFloat(b, a)
		}
		return ltAny(a, b)
	}
	if isInt(a.typ) && (isInt(b.typ)) {
		switch op {
		case token.ADD:
			// disjoint bits: addition is or
			if !a.isConst() && !b.isConst() && (a.op == OBits || b.op == OBits) {
				x, y := toBits(a), toBits(b)
				dis := true
				for i := range x {
					if x[i].k != 0 && y[i].k != 0 {
						dis = false
						break
					}
				}
				if dis {
					nb := make([]*Bit, len(x))
					for i := range nb {
						nb[i] = bor(x[i], y[i])
					}
					return fromBits(t, nb)
				}
			}
			if (a.op == OBits && b.isConst()) || (b.op == OBits && a.isConst()) {
				x, y := toBits(a), toBits(b)
				dis := true
				for i := range x {
					if x[i].k != 0 && y[i].k != 0 {
						dis = false
						break
					}
				}
				if dis {
					nb := make([]*Bit, len(x))
					for i := range nb {
						nb[i] = bor(x[i], y[i])
					}
					return fromBits(t, nb)
				}
			}
			return fromLin(t, linAdd(toLin(a), toLin(b), 1))
		case token.SUB:
			return fromLin(t, linAdd(toLin(a), toLin(b), -1))
		case token.MUL:
			if c, ok := a.intConst(); ok {
				a, b = b, a
				_ = c
			}
			if c, ok := b.intConst(); ok {
				if n, p := isPow2(c); p && !a.isConst() {
					return shiftL(a, n, t)
				}
				return fromLin(t, linScale(toLin(a), c))
			}
		case token.SHL:
			if n, ok := b.i64(); ok && n >= 0 {
				return shiftL(a, int(min64(n, 1000)), t)
			}
		case token.SHR:
			if n, ok := b.i64(); ok && n >= 0 {
				return shiftR(a, int(min64(n, 1000)), t)
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			x, y := toBits(a), toBits(b)
			nb := make([]*Bit, len(x))
			for i := range nb {
				switch op {
				case token.AND:
					nb[i] = band(x[i], y[i])
				case token.OR:
					nb[i] = bor(x[i], y[i])
				case token.XOR:
					nb[i] = bxor(x[i], y[i])
				case token.AND_NOT:
					nb[i] = band(x[i], bnot(y[i]))
				}
			}
			return fromBits(t, nb)
		case token.QUO, token.REM:
			ca, ok1 := a.intConst()
			cb, ok2 := b.intConst()
			if ok1 && ok2 && cb.Sign() != 0 {
				if op == token.QUO {
					return mkBig(t, new(big.Int).Quo(ca, cb))
				}
				return mkBig(t, new(big.Int).Rem(ca, cb))
			}
			if ok2 {
				if n, p := isPow2(cb); p && rangeOf(a, nil).lo.Sign() >= 0 {
					if op == token.QUO {
						return shiftR(a, n, t)
					}
					return binop(token.AND, a, mkBig(t, new(big.Int).Sub(cb, big.NewInt(1))), t)
				}
			}
		}
		return mk(OBin, t, op.String(), a, b)
	}
	if isString(a.typ) && op == token.ADD {
		return mkConcat(t, a, b)
	}
	if a.isConst() && b.isConst() && !a.isNil() && !b.isNil() && isFloat(a.typ) {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return mkConst(constant.BinaryOp(constant.ToFloat(a.cv()), op, constant.ToFloat(b.cv())), t)
		}
	}
	return mk(OBin, t, op.String(), a, b)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func ltAny(a, b *Val) *Val {
	if isInt(a.typ) && isInt(b.typ) {
		return mkLtInt(a, b)
	}
	if a.isConst() && b.isConst() && !a.isNil() && !b.isNil() {
		return mkBool(constant.Compare(a.cv(), token.LSS, b.cv()))
	}
	if a == b {
		return mkBool(false)
	}
	return mk(OLt, tBool, "", a, b)
}

func leFloat(a, b *Val) *Val {
	if a.isConst() && b.isConst() {
		return mkBool(constant.Compare(a.cv(), token.LEQ, b.cv()))
	}
	return mk(OLe, tBool, "", a, b)
}

func shiftL(a *Val, n int, t types.Type) *Val {
	bs := toBits(a)
	nb := make([]*Bit, len(bs))
	for i := range nb {
		if i-n >= 0 {
			nb[i] = bs[i-n]
		} else {
			nb[i] = I.B0
		}
	}
	return fromBits(t, nb)
}

func shiftR(a *Val, n int, t types.Type) *Val {
	bs := toBits(a)
	nb := make([]*Bit, len(bs))
	for i := range nb {
		if i+n < len(bs) {
			nb[i] = bs[i+n]
		} else if isUnsigned(a.typ) {
			nb[i] = I.B0
		} else {
			nb[i] = bs[len(bs)-1]
		}
	}
	return fromBits(t, nb)
}
