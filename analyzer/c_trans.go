package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = &check{run: runC08, min: 20,
		rule: "on every path of ReadAllTransport and of every transport's ReadAll: a nil error implies the whole buffer was filled with the bytes of consecutive reads in order; fewer bytes than asked imply a non-nil error; each read asks only for the part still missing; a read that makes no progress ends the loop; an empty buffer needs no read",
		expl: "Abstract interpretation of ReadAllTransport over an arbitrary transport and of the ReadAll method of every type of the package that has Read and ReadAll, with the underlying Read abstract (any count 0..len, any error). The first rounds of the loop are followed exactly, later rounds with the carried count unknown.",
		asm:  []string{"io.Reader contract: 0 <= n <= len(p), bytes beyond n are not relied upon"},
	}
	checks["C09"] = &check{run: runC09, min: 12,
		rule: "on every path: TFramedTransport writes reach the wrapped transport only at Flush, as one frame of a four-byte big-endian payload size and the payload written since the last frame; reads return the payloads of consecutive frames in order, never past a frame's end, taking a new frame only when the previous one is used up; negative sizes and every error of the wrapped transport are reported",
		expl: "Abstract interpretation of sequences of TFramedTransport calls from its constructor over an abstract transport that may fail at every operation; payload sizes, frame sizes and buffer sizes are symbolic.",
		asm:  []string{"bytes.Buffer is a byte queue as documented", "the wrapped transport obeys the io contracts"},
	}
}

// readLoop decides the ReadAll contract for one function.
func readLoop(c *Ctx, rule, key string, f *ssa.Function, recv func(st *State) *Val, isRead func(ci *callInfo) bool, opaque func(f *ssa.Function) bool) {
	in := newInterp(c.prog, Config{Unroll: 4, NoMerge: true, PossiblePanics: true, Opaque: opaque})
	in.cfg.Model = func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
		if !isRead(ci) || len(ci.args) == 0 {
			return pureErrorText(in, st, ci)
		}
		b := ci.args[len(ci.args)-1]
		k := st.ext["reads"]
		st.ext["reads"]++
		var outs []modelOut
		for v := 0; v < 4; v++ { // progress/none x error/no error
			s := st.clone()
			n := atom(tInt, fmt.Sprintf("got%d", k))
			if v&1 == 0 {
				s.facts.refine(n, Range{big.NewInt(1), big.NewInt(1 << 40)})
				if !s.facts.assume(mkLtInt(mkLen(b), n), false) {
					continue
				}
			} else {
				n = mkInt(0)
			}
			e := mkNil(tError)
			if v&2 != 0 {
				e = newErr(s, tError, "read-error")
			}
			data := seqAtom(types.NewSlice(tByte), fmt.Sprintf("data%d", k), n)
			if b.op == OView && v&1 == 0 {
				in.setContent(s, mk(OView, b.typ, "", b.args[0], b.args[1], n), data)
			}
			s.add(&Event{kind: EvCall, name: "Read", method: "Read", recv: ci.recv, args: []*Val{b}, snaps: []*Val{data}, res: []*Val{n, e}, pos: ci.pos, in: ci.in})
			outs = append(outs, modelOut{st: s, res: []*Val{n, e}})
		}
		return outs, true
	}
	st := in.start()
	size := atom(tInt, "size")
	st.facts.refine(size, Range{big.NewInt(0), big.NewInt(1 << 40)})
	buf := in.userBuf(st, "buf", size)
	bobj := buf.args[0]
	r := recv(st)
	outs := in.Call(f, []*Val{r, buf}, st)
	if in.err != nil || len(outs) == 0 {
		c.undecided(rule, key, "%v", in.err)
		return
	}
	c.paths += len(outs)
	c.cover(in)
	fine := 0
	for _, o := range outs {
		if o.kind == XCut {
			continue // further rounds repeat a widened one
		}
		if o.kind != XReturn || len(o.rets) != 2 {
			c.ob(rule, key, false, "%s", c.descOutcome(o))
			continue
		}
		n, e := o.rets[0], o.rets[1]
		f := o.st.facts
		got := linForm{c: big.NewInt(0)}
		var data []*Val
		exact := true
		bad := false
		for i, ev := range o.st.trace.list() {
			if ev.name != "Read" {
				continue
			}
			b := ev.args[0]
			if b.op != OView || b.args[0] != bobj {
				c.ob(rule, key, false, "reads into another buffer than the caller's: %s", c.descOutcome(o))
				bad = true
				break
			}
			off := fromLin(tInt, got)
			if exact && (mentionsAtom(b.args[1], "loop:") || mentionsAtom(b.args[2], "loop:")) {
				exact = false
			}
			if exact {
				end := fromLin(tInt, linAdd(toLin(b.args[1]), toLin(b.args[2]), 1))
				if !c.ob(rule, key+" asks for the missing part", f.simp(b.args[1]) == f.simp(off) && f.simp(end) == f.simp(size), "read %d asks for [%v:%v] when %v bytes have arrived: %s", i+1, b.args[1], end, off, c.descOutcome(o)) {
					bad = true
				}
			} else {
				end := fromLin(tInt, linAdd(toLin(b.args[1]), toLin(b.args[2]), 1))
				c.ob(rule, key+" never asks past the end", f.simp(end) == f.simp(size), "read %d asks up to %v", i+1, end)
			}
			got = linAdd(got, toLin(ev.res[0]), 1)
			data = append(data, ev.snaps[0])
		}
		if bad {
			continue
		}
		if mentionsAtom(n, "loop:") || len(data) >= 4 {
			exact = false
		}
		es := errState(o.st, e)
		if es == 0 {
			c.ob(rule, key, false, "cannot tell whether an error is reported: %s", c.descOutcome(o))
			continue
		}
		if es > 0 {
			c.ob(rule, key+" reports an error", true, "%s", c.descOutcome(o))
			if exact {
				c.ob(rule, key+" counts what it read", f.simp(n) == f.simp(fromLin(tInt, got)), "returns count %v with an error after %v bytes: %s", n, fromLin(tInt, got), c.descOutcome(o))
			}
			continue
		}
		fine++
		if exact {
			total := fromLin(tInt, got)
			full := sameVal(f, total, size) || f.eval(mkLtInt(total, size)) < 0
			c.ob(rule, key+" success means full", full && (f.simp(n) == f.simp(total) || sameVal(f, n, size)), "reports success with %v of %v bytes (count %v): %s", total, size, n, c.descOutcome(o))
			if f.eval(mkEq(size, mkInt(0))) > 0 {
				c.ob(rule, key+" empty buffer needs no read", len(data) == 0, "%s", c.descOutcome(o))
			} else {
				var q seqb
				for _, d := range data {
					q.splice(d)
				}
				have, want := f.simp(in.content(o.st, buf)), f.simp(q.seq())
				c.ob(rule, key+" fills the buffer in order", full && startsWith(have, want), "the buffer holds %v, the reads delivered %v", have, want)
			}
		} else {
			c.ob(rule, key+" success means full", f.eval(mkLtInt(n, size)) < 0, "may report success with %v of %v bytes: %s", n, size, c.descOutcome(o))
		}
	}
	c.ob(rule, key+" can succeed", fine > 0, "no path succeeds")
}

// startsWith: sequence a begins with sequence b (as terms).
func startsWith(a, b *Val) bool {
	if a == b {
		return true
	}
	if b.op != OSeq {
		b = mkSeq(b.typ, []*Val{b}, []byte{'s'})
	}
	if a.op != OSeq {
		a = mkSeq(a.typ, []*Val{a}, []byte{'s'})
	}
	if len(b.args) > len(a.args) {
		return false
	}
	for i := range b.args {
		if a.args[i] != b.args[i] || a.aux[i] != b.aux[i] {
			return false
		}
	}
	return true
}

func mentionsAtom(v *Val, prefix string) bool {
	if v.op == OAtom && strings.HasPrefix(v.aux, prefix) {
		return true
	}
	for _, a := range v.args {
		if mentionsAtom(a, prefix) {
			return true
		}
	}
	if v.op == OLin {
		for _, t := range v.obj.(linForm).terms {
			if mentionsAtom(t.v, prefix) {
				return true
			}
		}
	}
	if v.op == OBits {
		if s, _ := extOf(v); s != nil {
			return mentionsAtom(s, prefix)
		}
	}
	return false
}

func runC08(c *Ctx) {
	rule := "read-all"
	ra := c.prog.Func("ReadAllTransport")
	if c.need("ReadAllTransport", ra != nil && len(ra.Params) == 2) {
		tr := atom(ra.Params[0].Type(), "transport")
		readLoop(c, rule, "ReadAllTransport", ra, func(st *State) *Val {
			st.facts.isnil[tr] = false
			return tr
		}, func(ci *callInfo) bool {
			return ci.fn != nil && ci.fn.Name() == "Read" && ci.recv != nil && unwrap(ci.recv) == tr
		}, nil)
	}
	n := 0
	for _, name := range c.prog.Thrift.Pkg.Scope().Names() {
		tn, ok := c.prog.Thrift.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || tn.IsAlias() {
			continue
		}
		pt := types.NewPointer(tn.Type())
		rd, rall := c.prog.MethodByName(tn.Type(), "Read"), c.prog.MethodByName(tn.Type(), "ReadAll")
		if rall == nil || rd == nil || len(rall.Params) != 2 || !isByteSlice(rall.Params[1].Type()) || len(rall.Blocks) == 0 {
			continue
		}
		n++
		var self *Val
		readLoop(c, rule, name+".ReadAll", rall, func(st *State) *Val {
			self = atom(pt, "self")
			st.facts.isnil[self] = false
			return self
		}, func(ci *callInfo) bool {
			return ci.sfn == rd || ci.fn != nil && ci.fn.Name() == "Read" && unwrap(ci.recv) == self
		}, func(f *ssa.Function) bool { return f == rd })
	}
	c.extra["read_all_implementations"] = n
	c.ob(rule, "implementations", n >= 5, "%d types with Read and ReadAll", n)
}

// bufferBytes is what a caller's buffer holds in its first n bytes.
func runC09(c *Ctx) {
	w := c.newWire("framed-transport")
	w.hook = func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
		if ci.name == "(*bytes.Buffer).WriteTo" && len(ci.args) == 1 && w.isTrans(ci.args[0]) {
			// one Write of everything; success empties the buffer
			q := in.bufContent(st, ci.recv)
			i64 := types.Typ[types.Int64]
			var outs []modelOut
			s0 := st.clone()
			if s0.facts.assume(mkEq(mkLen(q), mkInt(0)), true) {
				outs = append(outs, modelOut{st: s0, res: []*Val{mkIntT(i64, 0), mkNil(tError)}})
			}
			if !st.facts.assume(mkEq(mkLen(q), mkInt(0)), false) {
				return outs, true
			}
			for _, o := range w.doWrite(st, ci, q, mkLen(q), i64) {
				if errState(o.st, o.res[1]) < 0 {
					in.setBuf(o.st, ci.recv, mkSeq(types.NewSlice(tByte), nil, nil))
				} else {
					in.setBuf(o.st, ci.recv, seqAtom(types.NewSlice(tByte), o.st.label("unsent"), atom(tInt, o.st.label("unsent-len"))))
				}
				outs = append(outs, o)
			}
			return outs, true
		}
		return pureErrorText(in, st, ci)
	}
	ps := w.construct("NewTFramedTransport")
	if ps == nil {
		return
	}
	bs := types.NewSlice(tByte)
	size := func(st *State, label string) *Val {
		v := atom(tInt, label)
		st.facts.refine(v, Range{big.NewInt(1), big.NewInt(1 << 28)})
		return v
	}
	st0 := ps.st.clone()
	la, lb, lc := size(st0, "size.a"), size(st0, "size.b"), size(st0, "size.c")
	a, b, d := w.in.userBuf(st0, "a", la), w.in.userBuf(st0, "b", lb), w.in.userBuf(st0, "c", lc)
	ca, cb, cd := seqAtom(bs, "a", la), seqAtom(bs, "b", lb), seqAtom(bs, "c", lc)
	frame := func(r *sd, parts ...*Val) {
		n := linForm{c: big.NewInt(0)}
		for _, p := range parts {
			n = linAdd(n, toLin(mkLen(p)), 1)
		}
		sum := r.f.simpConst(fromLin(tInt, n))
		if r.is(mkEq(sum, mkInt(0))) {
			r.free() // nothing or an empty frame
		}
		r.want.be(convert(sum, tI32), 4)
		for _, p := range parts {
			r.want.splice(p)
		}
	}
	// writes are only buffered
	w.sessions("Write buffers", "write", w.play(ps, st0, "Write buffers", call("Write", a), call("Write", b)), func(r *sd) {
		for _, n := range []*Val{la, lb} {
			r.step()
			r.result(0, n)
		}
	})
	// Flush sends one frame
	flushed := func(key string, ss []session) {
		for _, s := range ss {
			if s.stop >= 0 {
				continue
			}
			last := ""
			for _, e := range s.st.trace.list() {
				last = e.name
			}
			c.ob(w.rule, key+" ends in a flush of the wrapped transport", last == "flush", "%s", descTrace(s.st))
		}
	}
	ss := w.play(ps, st0, "Flush", call("Write", a), call("Write", b), call("Flush"))
	w.sessions("Flush sends one frame", "write", ss, func(r *sd) {
		r.step()
		r.step()
		r.step()
		frame(r, ca, cb)
	})
	flushed("Flush", ss)
	// the next frame holds only what was written since
	w.sessions("second frame", "write", func() []session {
		s1 := w.play(ps, st0, "second frame", call("Write", a), call("Flush"))
		var r []session
		for _, s := range s1 {
			if s.stop >= 0 {
				c.ob(w.rule, "second frame", false, "reports an error on a working transport: %s", c.descOutcome(s.out))
				continue
			}
			r = append(r, w.play(ps, s.st, "second frame", call("Write", d), call("Flush"))...)
		}
		return r
	}(), func(r *sd) {
		r.step()
		r.step()
		frame(r, cd)
	})
	// an empty flush sends nothing or an empty frame
	for _, s := range w.play(ps, ps.st, "empty Flush", call("Flush")) {
		got, _ := written(s.st)
		g := s.st.facts.simp(got)
		var z seqb
		z.lit(0, 0, 0, 0)
		c.ob(w.rule, "empty Flush", s.stop < 0 && (g == mkSeq(bs, nil, nil) || g == z.seq()), "%s", c.descOutcome(s.out))
	}
	// failures are reported
	wr := func(st *State, steps ...step) *State {
		w.noFail = true
		defer func() { w.noFail = false }()
		for _, s := range w.play(ps, st, "prefix", steps...) {
			if s.stop < 0 {
				x := s.st.clone()
				x.trace = nil
				return x
			}
		}
		return st
	}
	st1 := st0.clone()
	st1.facts.refine(la, Range{big.NewInt(1), big.NewInt(1 << 28)})
	w.failing("Flush reports failures", w.call(ps, wr(st1, call("Write", a)), "Flush"))
	c.ob(w.rule, "Flush failures reached", w.nfail >= 2, "%d failing paths", w.nfail)

	// reading
	st2 := ps.st.clone()
	var bufs, sizes []*Val
	for i := 0; i < 3; i++ {
		l := fmt.Sprintf("buf%d", i)
		n := atom(tInt, l+".len")
		st2.facts.refine(n, Range{big.NewInt(1), big.NewInt(1 << 28)})
		sizes = append(sizes, n)
		bufs = append(bufs, w.in.userBuf(st2, l, n))
	}
	n0 := w.nfail
	w.failing("Read reports failures", w.call(ps, st2, "Read", bufs[0]))
	c.ob(w.rule, "Read failures reached", w.nfail-n0 >= 2, "%d failing paths", w.nfail-n0)
	empty := mkSeq(bs, nil, nil)
	none := w.in.userBuf(st2, "none", mkInt(0))
	allBufs, allSizes := bufs, sizes
	for _, k := range []int{1, 2, 3, 4} {
		key := fmt.Sprintf("%d reads", k)
		bufs, sizes := allBufs, allSizes
		if k == 4 { // the middle one asks for nothing
			key = "an empty read between two"
			k = 3
			bufs, sizes = []*Val{bufs[0], none, bufs[2]}, []*Val{sizes[0], mkInt(0), sizes[2]}
		}
		var steps []step
		for i := 0; i < k; i++ {
			steps = append(steps, call("Read", bufs[i]))
		}
		w.sessions(key, "read", w.play(ps, st2, key, steps...), func(r *sd) {
			rest := empty
			for i := 0; i < k; i++ {
				r.step()
				m := r.get(0)
				used := r.is(mkLtInt(mkLen(rest), mkInt(1)))
				if r.is(mkLtInt(sizes[i], mkInt(1))) {
					// a read into an empty buffer takes nothing from the frame
					if used {
						r.free()
					}
					r.result(0, mkInt(0))
					continue
				}
				if used {
					n := beVal(tI32, r.bytes(4))
					if r.is(mkEq(n, mkIntT(tI32, 0))) {
						r.free()
					}
					r.rejectIf(mkLtInt(convert(n, tInt), mkInt(0)))
					rest = r.block(n)
				}
				have := mkLen(rest)
				switch {
				case r.is(mkLtInt(m, mkInt(1))):
					r.result(0, mkInt(1)) // no progress
				case r.is(mkLtInt(have, m)):
					r.result(0, have) // past the frame
				case r.is(mkLtInt(sizes[i], m)):
					r.result(0, sizes[i])
				}
				part := seqSub(rest, mkInt(0), m)
				got := w.in.content(r.s.st, bufs[i])
				x, y := r.f.simp(mkSeq(bs, []*Val{seqSub(got, mkInt(0), m)}, []byte{'s'})), r.f.simp(mkSeq(bs, []*Val{part}, []byte{'s'}))
				c.ob(w.rule, key+" deliver the payload in order", x == y, "read %d returns %v, the payload continues with %v; %s", i+1, x, y, c.descOutcome(r.s.out))
				rest = seqSub(rest, m, have)
			}
		})
	}
}
