package main

// Wire-level analysis of a protocol over an abstract transport. The transport
// accepts or fails each write; reads take consecutive symbolic bytes of an
// unbounded input or fail. What a method put on the wire, and what it consumed,
// are sequence terms compared with the layout the property states.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type chunk struct {
	n   *Val // length (int)
	seq *Val // content
}

type wire struct {
	c      *Ctx
	in     *Interp
	trans  *Val
	rule   string
	opq    map[string]bool // further opaque callees (by function name)
	hook   func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool)
	noFail bool
	nfail  int

	validStr map[*Val]bool // JSON strings (with quotes) known to be well formed
	plainStr map[*Val]*Val // those without escapes, and what they hold
}

var tError = types.Universe.Lookup("error").Type()

func (c *Ctx) newWire(rule string) *wire {
	w := &wire{c: c, rule: rule, opq: map[string]bool{}, validStr: map[*Val]bool{}, plainStr: map[*Val]*Val{}}
	w.in = newInterp(c.prog, Config{Model: w.model, PossiblePanics: true, NoMerge: true})
	return w
}

// isTrans: the value is the abstract transport (possibly converted between interfaces).
func (w *wire) isTrans(v *Val) bool {
	for v != nil && (v.op == OConv || v.op == OIface || v.op == OAssert) && len(v.args) > 0 {
		v = v.args[0]
	}
	return v != nil && w.trans != nil && v == w.trans
}

// stream position label
func (w *wire) chunkFor(st *State, n *Val, t types.Type) *Val {
	if k, ok := n.i64(); ok && k <= 64 {
		vs := make([]*Val, k)
		ks := make([]byte, k)
		for i := range vs {
			vs[i] = inByte(st.ext["seg"], st.ext["off"])
			ks[i] = 'e'
			st.ext["off"]++
		}
		return mkSeq(t, vs, ks)
	}
	s := seqAtom(t, fmt.Sprintf("in.str%d", st.ext["seg"]), n)
	st.ext["seg"]++
	st.ext["off"] = 0
	return s
}

// inByte is the o-th byte after the g-th variable-length segment of the input.
func inByte(g, o int) *Val {
	return atom(tByte, fmt.Sprintf("in%d[%d]", g, o))
}

func newErr(st *State, t types.Type, label string) *Val {
	v := atom(t, st.label(label))
	st.facts.isnil[v] = false
	return v
}

func (w *wire) event(st *State, ci *callInfo, name string, snap *Val, err *Val) {
	e := &Event{kind: EvCall, name: name, method: name, fn: ci.fn, recv: ci.recv, args: ci.args, pos: ci.pos, in: ci.in}
	if snap != nil {
		e.snaps = []*Val{snap}
	}
	if err != nil {
		e.res = []*Val{err}
	}
	st.add(e)
}

func (w *wire) doWrite(st *State, ci *callInfo, content, n *Val, cntT types.Type) []modelOut {
	ok := st
	fail := st.clone()
	w.event(ok, ci, "write", content, mkNil(tError))
	var outs []modelOut
	outs = append(outs, modelOut{st: ok, res: []*Val{convert(n, cntT), mkNil(tError)}})
	if w.noFail {
		return outs
	}
	e := newErr(fail, tError, "write-error")
	w.event(fail, ci, "write-fail", content, e)
	cnt := atom(cntT, fail.label("short-count"))
	fail.facts.refine(cnt, Range{big.NewInt(0), big.NewInt(1 << 62)})
	outs = append(outs, modelOut{st: fail, res: []*Val{cnt, e}})
	return outs
}

func (w *wire) doRead(st *State, ci *callInfo, buf *Val) []modelOut {
	n := st.facts.simpConst(mkLen(buf))
	if z, ok := n.i64(); ok && z == 0 {
		return []modelOut{{st: st, res: []*Val{mkInt(0), mkNil(tError)}}}
	}
	fail := st.clone()
	c := w.chunkFor(st, n, buf.typ)
	w.in.setContent(st, buf, c)
	w.event(st, ci, "read", c, mkNil(tError))
	outs := []modelOut{{st: st, res: []*Val{n, mkNil(tError)}}}
	if w.noFail {
		return outs
	}
	e := newErr(fail, tError, "read-error")
	w.in.setContent(fail, buf, seqAtom(buf.typ, fail.label("partial"), n))
	w.event(fail, ci, "read-fail", nil, e)
	cnt := atom(tInt, fail.label("short-count"))
	fail.facts.refine(cnt, Range{big.NewInt(0), big.NewInt(1 << 62)})
	outs = append(outs, modelOut{st: fail, res: []*Val{cnt, e}})
	return outs
}

func (w *wire) model(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	if w.hook != nil {
		if r, ok := w.hook(in, st, ci); ok {
			return r, ok
		}
	}
	m := ""
	if ci.fn != nil {
		m = ci.fn.Name()
	} else if ci.sfn != nil {
		m = ci.sfn.Name()
	}
	if ci.recv != nil && w.isTrans(ci.recv) {
		switch m {
		case "Write":
			return w.doWrite(st, ci, in.content(st, ci.args[0]), mkLen(ci.args[0]), tInt), true
		case "ReadAll":
			return w.doRead(st, ci, ci.args[0]), true
		case "Flush":
			fail := st.clone()
			w.event(st, ci, "flush", nil, mkNil(tError))
			e := newErr(fail, tError, "flush-error")
			w.event(fail, ci, "flush-fail", nil, e)
			return []modelOut{{st: st, res: []*Val{mkNil(tError)}}, {st: fail, res: []*Val{e}}}, true
		case "IsOpen", "Peek":
			return nil, false
		}
		return nil, false
	}
	switch ci.name {
	case "io.WriteString":
		if w.isTrans(ci.args[0]) {
			return w.doWrite(st, ci, in.content(st, ci.args[1]), mkLen(ci.args[1]), tInt), true
		}
	case "io.CopyN", "io.Copy":
		if w.isTrans(ci.args[0]) {
			src := ci.args[1]
			for src.op == OIface {
				src = src.args[0]
			}
			var content, n *Val
			tc := types.NewSlice(tByte)
			if ci.name == "io.CopyN" {
				n = ci.args[2]
			}
			if src.op == OConv && src.aux == "mem" {
				s := src.args[0]
				if n == nil {
					n = convert(mkLen(s), types.Typ[types.Int64])
				}
				if convert(mkLen(s), types.Typ[types.Int64]) == n || convert(mkLen(s), tInt) == convert(n, tInt) {
					content = mkSeq(tc, []*Val{s}, []byte{'s'})
				}
			}
			if n == nil {
				return nil, false
			}
			if content == nil {
				content = seqAtom(tc, "reader:"+src.String(), convert(n, tInt))
			}
			return w.doWrite(st, ci, content, n, types.Typ[types.Int64]), true
		}
	case "io.ReadFull":
		if w.isTrans(ci.args[0]) {
			return w.doRead(st, ci, ci.args[1]), true
		}
	case "io.ReadAtLeast":
		if w.isTrans(ci.args[0]) && ci.args[2] == mkLen(ci.args[1]) {
			return w.doRead(st, ci, ci.args[1]), true
		}
	}
	if ci.sfn != nil && ci.sfn.Pkg == w.c.prog.Thrift {
		switch ci.sfn.Name() {
		case "ReadAllTransport":
			if w.isTrans(ci.args[0]) {
				return w.doRead(st, ci, ci.args[1]), true
			}
		case "NewTProtocolExceptionFromOsError", "NewTTransportExceptionFromOsError":
			return w.conv(st, ci), true
		}
	}
	return nil, false
}

// conv: the exception conversions map nil to nil and every error to an
// exception that carries it (decided separately under C07).
func (w *wire) conv(st *State, ci *callInfo) []modelOut {
	e := ci.args[0]
	rt := ci.sig.Results().At(0).Type()
	switch isnil, known := st.facts.nilness(e); {
	case known && isnil:
		return []modelOut{{st: st, res: []*Val{mkNil(rt)}}}
	case known:
		r := mk(OCall, rt, "exception-of", e)
		st.facts.isnil[r] = false
		return []modelOut{{st: st, res: []*Val{r}}}
	}
	s2 := st.clone()
	var outs []modelOut
	if st.facts.assume(mkEq(e, mkNil(e.typ)), true) {
		outs = append(outs, modelOut{st: st, res: []*Val{mkNil(rt)}})
	}
	if s2.facts.assume(mkEq(e, mkNil(e.typ)), false) {
		r := mk(OCall, rt, "exception-of", e)
		s2.facts.isnil[r] = false
		outs = append(outs, modelOut{st: s2, res: []*Val{r}})
	}
	return outs
}

func (w *wire) opaque(f *ssa.Function) bool {
	if f.Pkg != w.c.prog.Thrift {
		return false
	}
	switch f.Name() {
	case "ReadAllTransport", "NewTProtocolExceptionFromOsError", "NewTTransportExceptionFromOsError":
		return f.Signature.Recv() == nil
	}
	return w.opq[f.Name()]
}

type protoState struct {
	st   *State
	recv *Val
	dt   types.Type
}

// construct calls an exported constructor with the abstract transport.
func (w *wire) construct(ctor string, extra ...*Val) *protoState {
	f := w.c.prog.Func(ctor)
	if !w.c.need("constructor "+ctor, f != nil) {
		return nil
	}
	w.in.cfg.Opaque = w.opaque
	st := w.in.start()
	if f.Signature.Params().Len() != 1+len(extra) {
		w.c.need("constructor "+ctor+" with the transport and its settings as parameters", false)
		return nil
	}
	w.trans = atom(f.Signature.Params().At(0).Type(), "transport")
	st.facts.isnil[w.trans] = false
	outs := w.in.Call(f, append([]*Val{w.trans}, extra...), st)
	if w.in.err != nil || len(outs) != 1 || outs[0].kind != XReturn {
		w.c.undecided(w.rule, ctor, "constructor: %v, %d outcomes", w.in.err, len(outs))
		return nil
	}
	o := outs[0]
	r := o.rets[0]
	if r.op == OIface {
		r = r.args[0]
	}
	if len(o.st.trace.list()) > 0 {
		w.c.ob(w.rule, ctor+" does no I/O", false, "%s", descTrace(o.st))
	}
	return &protoState{st: o.st, recv: r, dt: r.typ}
}

func (w *wire) method(ps *protoState, name string) *ssa.Function {
	f := w.c.prog.MethodByName(ps.dt, name)
	w.c.need(fmt.Sprintf("method %s.%s", types.TypeString(ps.dt, qual), name), f != nil && len(f.Blocks) > 0)
	return f
}

// call runs a method from a copy of the state; the trace is cleared first.
func (w *wire) call(ps *protoState, st *State, name string, args ...*Val) []Outcome {
	f := w.method(ps, name)
	if f == nil {
		return nil
	}
	if len(f.Params) != len(args)+1 {
		w.c.need(fmt.Sprintf("method %s with %d parameters", name, len(args)), false)
		return nil
	}
	s := st.clone()
	for i, a := range args {
		if t := f.Params[i+1].Type(); !types.Identical(a.typ, t) {
			args[i] = retype(a, t)
		}
	}
	outs := w.in.Call(f, append([]*Val{ps.recv}, args...), s)
	if w.in.err != nil {
		w.c.undecided(w.rule, name, "%v", w.in.err)
		w.in.err = nil
		w.in.steps, w.in.forks = 0, 0
		return nil
	}
	w.c.paths += len(outs)
	w.c.cover(w.in)
	w.in.steps, w.in.forks = 0, 0
	return outs
}

func retype(a *Val, t types.Type) *Val {
	switch {
	case a.isConst():
		return mkConst(a.cv(), t)
	case a.op == OAtom:
		return atom(t, a.aux)
	}
	return convert(a, t)
}

func descTrace(st *State) string {
	var s []string
	for _, e := range st.trace.list() {
		switch {
		case len(e.snaps) > 0:
			s = append(s, fmt.Sprintf("%s %v", e.name, e.snaps))
		default:
			s = append(s, e.name)
		}
	}
	return strings.Join(s, "; ")
}

func (c *Ctx) descOutcome(o Outcome) string {
	var s []string
	if len(o.st.log) > 0 {
		l := o.st.log
		if len(l) > 12 {
			l = l[len(l)-12:]
		}
		s = append(s, "when "+strings.Join(l, ", "))
	}
	if t := descTrace(o.st); t != "" {
		s = append(s, "after "+t)
	}
	if o.kind == XPanic {
		s = append(s, "panics: "+o.why)
	} else if o.kind == XCut {
		s = append(s, "loops")
	} else {
		s = append(s, fmt.Sprintf("returns %v", o.rets))
	}
	return strings.Join(s, " ") + " at " + c.pos(o.pos)
}

// written concatenates what reached the transport.
func written(st *State) (*Val, bool) {
	tc := types.NewSlice(tByte)
	var vs []*Val
	fail := false
	for _, e := range st.trace.list() {
		switch e.name {
		case "write":
			vs = append(vs, e.snaps[0])
		case "write-fail", "flush-fail":
			fail = true
		}
	}
	return mkSeq(tc, vs, []byte(strings.Repeat("s", len(vs)))), fail
}

// consumed concatenates what was taken from the transport.
func consumed(st *State) (*Val, bool) {
	tc := types.NewSlice(tByte)
	var vs []*Val
	fail := false
	for _, e := range st.trace.list() {
		switch e.name {
		case "read":
			vs = append(vs, e.snaps[0])
		case "read-fail":
			fail = true
		}
	}
	return mkSeq(tc, vs, []byte(strings.Repeat("s", len(vs)))), fail
}

func simpSeq(f *Facts, s *Val) *Val { return f.simp(s) }

// errState: -1 the error result is nil, 1 it is not, 0 not determined.
func errState(st *State, v *Val) int {
	isnil, known := st.facts.nilness(v)
	switch {
	case !known:
		return 0
	case isnil:
		return -1
	}
	return 1
}

// ---------------------------------------------------------------- expected bytes

type seqb struct {
	vs []*Val
	ks []byte
}

func (s *seqb) bytes(vs ...*Val) *seqb {
	for _, v := range vs {
		s.vs = append(s.vs, v)
		s.ks = append(s.ks, 'e')
	}
	return s
}
func (s *seqb) lit(bs ...int) *seqb {
	for _, b := range bs {
		s.bytes(mkIntT(tByte, int64(b)))
	}
	return s
}
func (s *seqb) splice(v *Val) *seqb {
	s.vs = append(s.vs, v)
	s.ks = append(s.ks, 's')
	return s
}
func (s *seqb) seq() *Val { return mkSeq(types.NewSlice(tByte), s.vs, s.ks) }

// be appends the w low bytes of an integer, most significant first.
func (s *seqb) be(v *Val, w int) *seqb {
	bs := extBits(v, 8*w)
	for i := w - 1; i >= 0; i-- {
		s.bytes(fromBits(tByte, append([]*Bit(nil), bs[8*i:8*i+8]...)))
	}
	return s
}
func (s *seqb) le(v *Val, w int) *seqb {
	bs := extBits(v, 8*w)
	for i := 0; i < w; i++ {
		s.bytes(fromBits(tByte, append([]*Bit(nil), bs[8*i:8*i+8]...)))
	}
	return s
}

func extBits(v *Val, n int) []*Bit {
	t := types.Typ[types.Int64]
	if isUnsigned(v.typ) {
		t = types.Typ[types.Uint64]
	}
	bs := toBits(convert(v, t))
	return bs[:n]
}

// beVal reads w bytes, most significant first, as an integer of type t.
func beVal(t types.Type, bs []*Val) *Val {
	w := len(bs)
	nb := make([]*Bit, 8*w)
	for i, b := range bs {
		copy(nb[8*(w-1-i):], toBits(b))
	}
	return fromBits(t, nb)
}
func leVal(t types.Type, bs []*Val) *Val {
	r := make([]*Val, len(bs))
	for i, b := range bs {
		r[len(bs)-1-i] = b
	}
	return beVal(t, r)
}
