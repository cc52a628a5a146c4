package main

// C16: the stream and memory transports.

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = &check{run: runC16, min: 60,
		rule: "on every path of every method sequence: a stream transport hands the writer exactly the bytes written, in order, all of them by the time Flush succeeds, and reads only from the reader it was given; what is missing is reported as NOT_OPEN; failures are reported as transport exceptions; Close closes a reader and writer that can be closed, once. A memory buffer delivers exactly the bytes written, in order, and nothing after Reset or Close",
		expl: "Abstract interpretation of call sequences from each constructor of TIOStreamTransport over an abstract reader and writer that may or may not be closers and flushers and may fail at every operation, and of TMemoryBuffer. bufio and bytes.Buffer are byte queues as documented.",
		asm:  []string{"bufio.Reader and bufio.Writer keep order and report the first failure of the stream below", "bytes.Buffer is a byte queue as documented"},
	}
}

func underKey(p *Val) *Val {
	return mk(OFieldAddr, types.NewPointer(types.NewSlice(tByte)), "bufio.under", p)
}

// under is the stream below a buffered one.
func under(st *State, v *Val) *Val {
	v = unwrap(v)
	for {
		u, ok := st.heap[underKey(v)]
		if !ok {
			return v
		}
		v = unwrap(u)
	}
}

// streamModel: readers, writers, closers, flushers and bufio.
func streamModel(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	ev := func(s *State, name string, recv *Val, content *Val, res ...*Val) {
		e := &Event{kind: EvCall, name: name, method: name, recv: recv, args: ci.args, res: res, pos: ci.pos, in: ci.in}
		if content != nil {
			e.snaps = []*Val{content}
		}
		s.add(e)
	}
	bs := types.NewSlice(tByte)
	empty := mkSeq(bs, nil, nil)
	switch {
	case strings.HasPrefix(ci.name, "bufio.NewReader"), strings.HasPrefix(ci.name, "bufio.NewWriter"):
		o := in.newObj(st, ci.sig.Results().At(0).Type(), "bufio")
		st.heap[underKey(o)] = unwrap(ci.args[0])
		in.setBuf(st, o, empty)
		return one(o)
	case ci.name == "(*bufio.Writer).Write" || ci.name == "(*bufio.Writer).Flush" || ci.name == "(*bufio.Writer).WriteString":
		w := under(st, ci.recv)
		p := in.bufContent(st, ci.recv)
		var n *Val
		flush := len(ci.args) == 0
		if !flush {
			n = mkLen(ci.args[0])
			p = mkSeq(bs, []*Val{p, in.content(st, ci.args[0])}, []byte("ss"))
		}
		res := func(k *Val, e *Val) []*Val {
			if flush {
				return []*Val{e}
			}
			return []*Val{k, e}
		}
		var outs []modelOut
		if flush {
			s0 := st.clone()
			if s0.facts.assume(mkEq(mkLen(p), mkInt(0)), true) {
				outs = append(outs, modelOut{st: s0, res: res(nil, mkNil(tError))})
			}
			if !st.facts.assume(mkEq(mkLen(p), mkInt(0)), false) {
				return outs, true
			}
		} else {
			s0 := st.clone()
			in.setBuf(s0, ci.recv, p)
			outs = append(outs, modelOut{st: s0, res: res(n, mkNil(tError))})
		}
		bad := st.clone()
		ev(st, "Write", w, p, mkLen(p), mkNil(tError))
		in.setBuf(st, ci.recv, empty)
		outs = append(outs, modelOut{st: st, res: res(n, mkNil(tError))})
		e := newErr(bad, tError, "write-error")
		k := atom(tInt, bad.label("short"))
		bad.facts.refine(k, Range{big.NewInt(0), big28})
		ev(bad, "Write", w, p, k, e)
		outs = append(outs, modelOut{st: bad, res: res(k, e)})
		return outs, true
	case ci.name == "(*bufio.Reader).Read":
		return readCases(in, st, ci, func(s *State, name string, args []*Val, res ...*Val) {
			ev(s, "Read", under(s, ci.recv), nil, res...)
		}), true
	}
	if !ci.iface || ci.fn == nil || ci.recv == nil {
		return pureErrorText(in, st, ci)
	}
	r := unwrap(ci.recv)
	if r.op != OAtom {
		return pureErrorText(in, st, ci)
	}
	switch ci.fn.Name() {
	case "Read":
		return readCases(in, st, ci, func(s *State, name string, args []*Val, res ...*Val) { ev(s, "Read", r, nil, res...) }), true
	case "Write":
		bad := st.clone()
		c := in.content(st, ci.args[0])
		ev(st, "Write", r, c, mkLen(c), mkNil(tError))
		e := newErr(bad, tError, "write-error")
		k := atom(tInt, bad.label("short"))
		bad.facts.refine(k, Range{big.NewInt(0), big28})
		ev(bad, "Write", r, c, k, e)
		return []modelOut{{st: st, res: []*Val{mkLen(c), mkNil(tError)}}, {st: bad, res: []*Val{k, e}}}, true
	case "Close", "Flush":
		bad := st.clone()
		ev(st, ci.fn.Name(), r, nil, mkNil(tError))
		e := newErr(bad, tError, "stream-error")
		ev(bad, ci.fn.Name(), r, nil, e)
		return []modelOut{{st: st, res: []*Val{mkNil(tError)}}, {st: bad, res: []*Val{e}}}, true
	}
	return pureErrorText(in, st, ci)
}

func streamEvents(st *State) []*Event {
	var r []*Event
	for _, e := range st.trace.list() {
		switch e.method {
		case "Read", "Write", "Close", "Flush":
			if e.kind == EvCall {
				r = append(r, e)
			}
		}
	}
	return r
}

func runC16(c *Ctx) {
	rule := "stream"
	t := c.prog.Type("TIOStreamTransport")
	if !c.need("type TIOStreamTransport", t != nil) {
		return
	}
	n := 0
	for _, f := range c.prog.ctorsOf(types.NewPointer(t)) {
		n++
		c.stream(rule, f)
	}
	c.ob(rule, "stream constructors", n >= 4, "%d", n)
	c.memory(rule)
}

func ioRole(t types.Type) (r, w bool) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Read":
			r = true
		case "Write":
			w = true
		}
	}
	return
}

type spath struct {
	st  *State
	got *Val
}

func (c *Ctx) stream(rule string, f *ssa.Function) {
	s := &script{lab: c.newLab(rule, Config{Unroll: 3, PossiblePanics: true, Model: streamModel}), name: f.Name()}
	nm := s.name + " "
	st := s.in.start()
	bs := types.NewSlice(tByte)
	la, lb := atom(tInt, "size.a"), atom(tInt, "size.b")
	for _, l := range []*Val{la, lb} {
		st.facts.refine(l, Range{big1, big28})
	}
	a, b := s.in.userBuf(st, "a", la), s.in.userBuf(st, "b", lb)
	ca, cb := seqAtom(bs, "a", la), seqAtom(bs, "b", lb)
	var args []*Val
	var rd, wr *Val
	for _, p := range f.Params {
		v := atom(p.Type(), p.Name())
		st.facts.isnil[v] = false
		r, w := ioRole(p.Type())
		if !c.ob(rule, nm+"parameters", r || w, "a parameter of type %v", p.Type()) {
			return
		}
		if r {
			rd = v
		}
		if w {
			wr = v
		}
		args = append(args, v)
	}
	// the streams are the user's own: some can be closed, some cannot
	var start []*State
	closer := closerType()
	for v := 0; v < 4; v++ {
		x := st.clone()
		if rd != nil {
			x.facts.truth[implKey(rd, closer)] = v&1 == 0
			x.facts.ndyn[rd] = c.prog.concrete()
		} else if v&1 != 0 {
			continue
		}
		if wr != nil && wr != rd {
			x.facts.truth[implKey(wr, closer)] = v&2 == 0
			x.facts.ndyn[wr] = c.prog.concrete()
		} else if v&2 != 0 {
			continue
		}
		o, ok := s.one(nm, s.run0(f, x, args))
		if !ok {
			return
		}
		r := unwrap(o.rets[0])
		if !c.ob(rule, nm+"returns one object", s.recv == nil || s.recv == r, "%v and %v", s.recv, r) {
			return
		}
		s.recv = r
		c.ob(rule, nm+"does nothing", len(streamEvents(o.st)) == 0, "%s", c.descOutcome(o))
		start = append(start, o.st)
	}
	only1 := start[:1]
	s.boolean("IsOpen", only1, "IsOpen", true)
	s.boolean("Peek", only1, "Peek", true)
	s.run("Open", only1, "Open", nil, func(o Outcome) bool {
		s.okOut(nm+"Open", o)
		c.ob(rule, nm+"Open does nothing", len(streamEvents(o.st)) == 0, "%s", c.descOutcome(o))
		return false
	})
	missing := func(sts []*State, what, m string) {
		arg := []*Val{a}
		if m == "Flush" {
			arg = nil
		}
		s.run(what, sts, m, arg, func(o Outcome) bool {
			s.isKind(nm+what, o, "NOT_OPEN")
			c.ob(rule, nm+what+" does nothing", len(streamEvents(o.st)) == 0, "%s", c.descOutcome(o))
			return false
		})
	}
	if rd == nil {
		missing(only1, "Read without a reader", "Read")
		missing(only1, "ReadAll without a reader", "ReadAll")
	} else {
		s.run("Read", only1, "Read", []*Val{a}, func(o Outcome) bool {
			evs := streamEvents(o.st)
			key := nm + "Read"
			if !c.ob(rule, key+" reads from the reader once", len(evs) == 1 && evs[0].method == "Read" && under(o.st, evs[0].recv) == rd, "%s", c.descOutcome(o)) {
				return false
			}
			c.ob(rule, key+" reads into the caller's buffer", evs[0].args[0] == a, "reads into %v", evs[0].args[0])
			c.ob(rule, key+" returns the count", sameVal(o.st.facts, o.rets[0], evs[0].res[0]), "%v for %v", o.rets[0], evs[0].res[0])
			if e := evs[0].res[1]; errState(o.st, e) < 0 {
				s.okOut(key+" succeeds", o)
			} else {
				s.reported(key, o, e)
			}
			return false
		})
	}
	play := func(ps []spath, what, m string, args ...*Val) []spath {
		var r []spath
		for _, p := range ps {
			s.run(what, []*State{p.st}, m, args, func(o Outcome) bool {
				key := nm + what
				got := p.got
				var e *Val
				flushed := false
				for _, x := range streamEvents(o.st) {
					if !c.ob(rule, key+" uses the writer only", under(o.st, x.recv) == wr && x.method != "Read" && x.method != "Close", "%s", c.descOutcome(o)) {
						return false
					}
					switch x.method {
					case "Write":
						got = mkSeq(bs, []*Val{got, x.snaps[0]}, []byte("ss"))
					case "Flush":
						flushed = true
					}
					if y := x.res[len(x.res)-1]; e == nil && errState(o.st, y) > 0 {
						e = y
					}
				}
				if e != nil {
					s.reported(key, o, e)
					return false
				}
				if !s.okOut(key+" succeeds", o) {
					return false
				}
				if m == "Write" {
					c.ob(rule, key+" counts what it takes", sameVal(o.st.facts, o.rets[0], mkLen(args[0])), "%v of %v", o.rets[0], mkLen(args[0]))
				} else if fl := flusherType(c); fl != nil && o.st.facts.eval(implKey(wr, fl)) > 0 {
					c.ob(rule, key+" flushes the writer", flushed, "%s", c.descOutcome(o))
				}
				r = append(r, spath{o.st, got})
				return false
			})
		}
		return r
	}
	sent := func(ps []spath, what string, parts ...*Val) {
		c.ob(rule, nm+what+" reached", len(ps) > 0, "no path succeeds")
		for _, p := range ps {
			var q seqb
			for _, x := range parts {
				q.splice(x)
			}
			g, w := p.st.facts.simp(p.got), p.st.facts.simp(q.seq())
			c.ob(rule, nm+what, g == w || sameContent(p.st.facts, g, w), "the writer receives %v, written is %v: %v", g, w, p.st.log)
		}
	}
	if wr == nil {
		missing(only1, "Write without a writer", "Write")
		missing(only1, "Flush without a writer", "Flush")
	} else {
		empty := mkSeq(bs, nil, nil)
		zero := atom(tInt, "size.none")
		nothing := s.in.userBuf(only1[0], "none", zero)
		only1[0].facts.refine(zero, Range{big.NewInt(0), big.NewInt(0)})
		play([]spath{{only1[0], empty}}, "Write of nothing", "Write", nothing)
		w1 := play([]spath{{only1[0], empty}}, "Write", "Write", a)
		fl := play(play(w1, "second Write", "Write", b), "Flush", "Flush")
		sent(fl, "Flush has handed everything on in order", ca, cb)
		for i := range fl {
			fl[i].got = empty
		}
		sent(play(fl, "second Flush", "Flush"), "second Flush hands nothing on again")
		sent(play(play(fl, "Write after Flush", "Write", b), "Flush after Flush", "Flush"), "the next Flush hands on what was written since", cb)
	}
	// Close
	closed := s.run("Close", start, "Close", nil, func(o Outcome) bool {
		key := nm + "Close"
		n := map[*Val]int{}
		for _, e := range streamEvents(o.st) {
			switch e.method {
			case "Close":
				n[under(o.st, e.recv)]++
			case "Flush", "Write":
				c.ob(rule, key+" uses the writer only to flush", under(o.st, e.recv) == wr, "%s", c.descOutcome(o))
			default:
				c.ob(rule, key+" does not read", false, "%s", c.descOutcome(o))
			}
		}
		for _, x := range []*Val{rd, wr} {
			if x == nil {
				continue
			}
			want := 0
			if o.st.facts.truth[implKey(x, closer)] {
				want = 1
			}
			c.ob(rule, key+" closes "+x.aux, n[x] == want, "%s is closed %d times, not %d: %s", x.aux, n[x], want, c.descOutcome(o))
		}
		return true
	})
	if len(closed) > 0 {
		missing(closed, "Read after Close", "Read")
		missing(closed, "Write after Close", "Write")
		missing(closed, "Flush after Close", "Flush")
		s.run("Close again", closed, "Close", nil, func(o Outcome) bool {
			c.ob(rule, nm+"Close again does nothing", len(streamEvents(o.st)) == 0, "%s", c.descOutcome(o))
			return false
		})
	}
}

func closerType() types.Type {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", tError)), false)
	return types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "Close", sig)}, nil).Complete()
}

func flusherType(c *Ctx) types.Type { return c.prog.Type("Flusher") }

func (c *Ctx) memory(rule string) {
	t := c.prog.Type("TMemoryBuffer")
	if !c.need("type TMemoryBuffer", t != nil) {
		return
	}
	n := 0
	for _, f := range c.prog.ctorsOf(types.NewPointer(t)) {
		n++
		s := &script{lab: c.newLab(rule, Config{Unroll: 3, PossiblePanics: true, Model: pureErrorText}), name: f.Name()}
		nm := s.name + " "
		st := s.in.start()
		bs := types.NewSlice(tByte)
		la, lb, lc, ld := atom(tInt, "size.a"), atom(tInt, "size.b"), atom(tInt, "size.c"), atom(tInt, "size.d")
		for _, l := range []*Val{la, lb, lc, ld} {
			st.facts.refine(l, Range{big1, big28})
		}
		a, b := s.in.userBuf(st, "a", la), s.in.userBuf(st, "b", lb)
		x, y := s.in.userBuf(st, "x", lc), s.in.userBuf(st, "y", ld)
		ca, cb := seqAtom(bs, "a", la), seqAtom(bs, "b", lb)
		var args []*Val
		for _, p := range f.Params {
			v := atom(p.Type(), p.Name())
			if isInt(p.Type()) {
				st.facts.refine(v, Range{big.NewInt(0), big28})
			}
			args = append(args, v)
		}
		o, ok := s.one(nm, s.run0(f, st, args))
		if !ok {
			continue
		}
		s.recv = unwrap(o.rets[0])
		start := []*State{o.st}
		holdsOnly := func(sts []*State, what string, want *Val) {
			for _, m := range []string{"Bytes", "String", "Len"} {
				s.run(what+" "+m, sts, m, nil, func(o Outcome) bool {
					r := o.rets[0]
					switch m {
					case "Len":
						c.ob(rule, nm+what+" Len", sameVal(o.st.facts, r, mkLen(want)), "%v, not %v", r, mkLen(want))
						return false
					case "String":
						if r.op == OConv {
							r = r.args[0]
						}
					}
					g, w := o.st.facts.simp(s.in.content(o.st, r)), o.st.facts.simp(want)
					c.ob(rule, nm+what+" "+m, g == w || sameContent(o.st.facts, g, w) || len(w.args) == 0 && w.op == OSeq && isEmptyText(r), "holds %v, not %v", g, w)
					return false
				})
			}
		}
		fine := func(sts []*State, what, m string, args ...*Val) []*State {
			return s.run(what, sts, m, args, func(o Outcome) bool {
				if !s.okOut(nm+what, o) {
					return false
				}
				if len(o.rets) == 2 {
					c.ob(rule, nm+what+" counts", sameVal(o.st.facts, o.rets[0], mkLen(args[0])), "%v of %v", o.rets[0], mkLen(args[0]))
				}
				return true
			})
		}
		empty := mkSeq(bs, nil, nil)
		s.boolean("IsOpen", start, "IsOpen", true)
		s.boolean("Peek", start, "Peek", true)
		holdsOnly(start, "fresh", empty)
		fine(start, "Open", "Open")
		w2 := fine(fine(start, "Write", "Write", a), "second Write", "Write", b)
		w2 = fine(w2, "Flush", "Flush")
		var ab seqb
		ab.splice(ca)
		ab.splice(cb)
		all := ab.seq()
		holdsOnly(w2, "after two writes", all)
		// reading takes from the front
		reads := func(sts []*State, what string, buf *Val, have func(st *State) *Val) []*State {
			return s.run(what, sts, "Read", []*Val{buf}, func(o Outcome) bool {
				key := nm + what
				h := have(o.st)
				f := o.st.facts
				e := errState(o.st, o.rets[1])
				if f.eval(mkLtInt(mkLen(h), mkInt(1))) > 0 {
					c.ob(rule, key+" of nothing", e > 0 && sameVal(f, o.rets[0], mkInt(0)), "%s", c.descOutcome(o))
					return false
				}
				n := o.rets[0]
				if !c.ob(rule, key+" delivers something", e < 0 && f.eval(mkLtInt(n, mkInt(1))) < 0, "%s", c.descOutcome(o)) {
					return false
				}
				all := sameVal(f, n, mkLen(h)) && f.eval(mkLtInt(mkLen(buf), n)) < 0
				c.ob(rule, key+" fills the buffer or takes everything", all || sameVal(f, n, mkLen(buf)) && f.eval(mkLtInt(mkLen(h), n)) < 0, "reads %v of %v into %v", n, mkLen(h), mkLen(buf))
				g, w := f.simp(s.in.content(o.st, mk(OView, buf.typ, "", buf.args[0], buf.args[1], n))), f.simp(seqSub(h, mkInt(0), n))
				c.ob(rule, key+" delivers the front", g == w || sameContent(f, g, w), "delivers %v, next is %v", g, w)
				o.st.heap[takenKey(s.recv)] = n
				return true
			})
		}
		r1 := reads(w2, "Read", x, func(*State) *Val { return all })
		rest := func(st *State) *Val {
			n, ok := st.heap[takenKey(s.recv)]
			if !ok {
				return all
			}
			return seqSub(all, n, mkLen(all))
		}
		reads(r1, "second Read", y, rest)
		for _, p := range r1 {
			holdsOnly([]*State{p}, "after a read", rest(p))
		}
		for _, m := range []string{"Reset", "Close"} {
			var e []*State
			if m == "Reset" {
				e = s.run(m, w2, m, nil, nil)
			} else {
				e = fine(w2, m, m)
			}
			holdsOnly(e, "after "+m, empty)
			reads(e, "Read after "+m, x, func(*State) *Val { return empty })
			holdsOnly(fine(e, "Write after "+m, "Write", b), "written after "+m, cb)
		}
	}
	c.ob(rule, "memory constructors", n >= 2, "%d", n)
}

func isEmptyText(v *Val) bool {
	s, ok := v.strConst()
	return ok && s == ""
}

func takenKey(p *Val) *Val { return mk(OFieldAddr, types.NewPointer(tInt), "taken", p) }
