package main

// Model of bytes.Buffer: the unread content is one sequence term kept per
// buffer object. Reads split it, writes append to it.

import (
	"go/types"
	"math/big"
	"strings"
)

func bufKey(p *Val) *Val {
	return mk(OFieldAddr, types.NewPointer(types.NewSlice(tByte)), "bufcontent", p)
}

// extVar is the value of an exported variable of an imported package.
func (in *Interp) extVar(st *State, path, name string) *Val {
	pk := in.prog.ssa.ImportedPackage(path)
	if pk == nil {
		return nil
	}
	if g := pk.Var(name); g != nil {
		return in.load(st, globalAddr(g))
	}
	return nil
}

func (in *Interp) bufContent(st *State, p *Val) *Val {
	k := bufKey(p)
	if v, ok := st.heap[k]; ok {
		if v.op == OView {
			return in.content(st, v)
		}
		return v
	}
	var v *Val
	if r := rootObj(p); r.op == OObj && st.def[r] == "zero" {
		v = mkSeq(types.NewSlice(tByte), nil, nil)
	} else {
		v = atom(types.NewSlice(tByte), "buffered:"+p.String())
	}
	st.heap[k] = v
	return v
}

func (in *Interp) setBuf(st *State, p, v *Val) { st.heap[bufKey(p)] = v }

func (in *Interp) bufModel(st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	nilErr := mkNil(tError)
	bs := types.NewSlice(tByte)
	empty := mkSeq(bs, nil, nil)
	switch ci.name {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		rt := ci.sig.Results().At(0).Type()
		o := in.newObj(st, rt, "buffer")
		a := ci.args[0]
		if a.op != OView {
			a = mkSeq(bs, []*Val{in.content(st, a)}, []byte{'s'})
		}
		in.setBuf(st, o, a)
		return one(o)
	}
	if strings.HasPrefix(ci.name, "fmt.Fprint") {
		// to a buffer: what Sprint of the rest gives is appended
		w := unwrapAny(ci.args[0])
		if t := typeName(w.typ); t != "*bytes.Buffer" && t != "*strings.Builder" || isIface(w.typ) {
			return nil, false
		}
		sub := *ci
		sub.name, sub.args = strings.Replace(ci.name, "Fprint", "Sprint", 1), ci.args[1:]
		outs := in.sprintCalls(st, &sub)
		if outs == nil {
			return nil, false
		}
		var r []modelOut
		for _, o := range outs {
			in.setBuf(o.st, w, mkSeq(bs, []*Val{in.bufContent(o.st, w), o.res[0]}, []byte("ss")))
			r = append(r, modelOut{st: o.st, res: []*Val{mkLen(o.res[0]), nilErr}})
		}
		return r, true
	}
	builder := strings.HasPrefix(ci.name, "(*strings.Builder).")
	if !builder && !strings.HasPrefix(ci.name, "(*bytes.Buffer).") || ci.recv == nil {
		return nil, false
	}
	p := ci.recv
	if n, ok := st.facts.nilness(p); ok && n {
		return []modelOut{{st: st, panic: "nil *bytes.Buffer"}}, true
	}
	app := func(v *Val) {
		in.setBuf(st, p, mkSeq(bs, []*Val{in.bufContent(st, p), v}, []byte("ss")))
	}
	switch m := ci.name[strings.LastIndex(ci.name, ".")+1:]; m {
	case "WriteRune":
		if r, ok := ci.args[0].i64(); ok && r >= 0 && r < 0x80 {
			in.setBuf(st, p, mkSeq(bs, []*Val{in.bufContent(st, p), mkIntT(tByte, r)}, []byte("se")))
			return one(mkInt(1), nilErr)
		}
	case "Write", "WriteString":
		app(in.content(st, ci.args[0]))
		return one(mkLen(ci.args[0]), nilErr)
	case "WriteByte":
		in.setBuf(st, p, mkSeq(bs, []*Val{in.bufContent(st, p), ci.args[0]}, []byte("se")))
		return one(nilErr)
	case "Len":
		return one(st.facts.simpConst(mkLen(in.bufContent(st, p))))
	case "Bytes":
		return one(in.bufContent(st, p))
	case "String":
		return one(in.conv(st, in.bufContent(st, p), tString))
	case "Reset":
		in.setBuf(st, p, empty)
		return one()
	case "Grow":
		return one()
	case "Truncate":
		if z, ok := ci.args[0].i64(); ok && z == 0 {
			in.setBuf(st, p, empty)
			return one()
		}
		in.setBuf(st, p, seqSub(in.bufContent(st, p), mkInt(0), ci.args[0]))
		return one()
	case "Read", "ReadByte", "Next":
		c := in.bufContent(st, p)
		have := mkLen(c)
		var want *Val
		switch m {
		case "Read":
			want = mkLen(ci.args[0])
		case "Next":
			want = ci.args[0]
		default:
			want = mkInt(1)
		}
		var outs []modelOut
		// nothing left
		s0 := st.clone()
		if s0.facts.assume(mkLtInt(have, mkInt(1)), true) {
			in.setBuf(s0, p, empty)
			switch m {
			case "Next":
				outs = append(outs, modelOut{st: s0, res: []*Val{empty}})
			case "ReadByte":
				outs = append(outs, modelOut{st: s0, res: []*Val{mkIntT(tByte, 0), in.extVar(s0, "io", "EOF")}})
			default:
				s1 := s0.clone()
				if s1.facts.assume(mkEq(want, mkInt(0)), true) {
					outs = append(outs, modelOut{st: s1, res: []*Val{mkInt(0), nilErr}})
				}
				if s0.facts.assume(mkEq(want, mkInt(0)), false) {
					outs = append(outs, modelOut{st: s0, res: []*Val{mkInt(0), in.extVar(s0, "io", "EOF")}})
				}
			}
		}
		take := func(s *State, n *Val) {
			part := seqSub(c, mkInt(0), n)
			in.setBuf(s, p, seqSub(c, n, have))
			switch m {
			case "Next":
				outs = append(outs, modelOut{st: s, res: []*Val{part}})
			case "ReadByte":
				outs = append(outs, modelOut{st: s, res: []*Val{seqIndex(c, mkInt(0), tByte), nilErr}})
			default:
				b := ci.args[0]
				if b.op == OView {
					in.setContent(s, mk(OView, b.typ, "", b.args[0], b.args[1], n), part)
				}
				outs = append(outs, modelOut{st: s, res: []*Val{n, nilErr}})
			}
		}
		if !st.facts.assume(mkLtInt(have, mkInt(1)), false) {
			return outs, true
		}
		s2 := st.clone()
		if st.facts.assume(mkLtInt(have, want), true) { // all of it
			take(st, have)
		}
		if s2.facts.assume(mkLtInt(have, want), false) {
			take(s2, want)
		}
		return outs, true
	case "ReadFrom":
		st2 := st.clone()
		ev := in.record(st, ci)
		app2 := seqAtom(bs, st.label("readfrom"), convert(ev.res[0], tInt))
		st.facts.assume(mkEq(ev.res[1], nilErr), true)
		app(app2)
		ev2 := in.record(st2, ci)
		st2.facts.isnil[ev2.res[1]] = false
		in.setBuf(st2, p, mkSeq(bs, []*Val{in.bufContent(st2, p), seqAtom(bs, st2.label("readfrom"), convert(ev2.res[0], tInt))}, []byte("ss")))
		return []modelOut{{st: st, res: ev.res}, {st: st2, res: ev2.res}}, true
	case "WriteTo":
		// one Write of everything to the argument; success empties the buffer
		c := in.bufContent(st, p)
		var outs []modelOut
		s0 := st.clone()
		if s0.facts.assume(mkEq(mkLen(c), mkInt(0)), true) {
			in.setBuf(s0, p, empty)
			outs = append(outs, modelOut{st: s0, res: []*Val{mkIntT(types.Typ[types.Int64], 0), nilErr}})
		}
		if !st.facts.assume(mkEq(mkLen(c), mkInt(0)), false) {
			return outs, true
		}
		fail := st.clone()
		wr := func(s *State, e *Val, n *Val) {
			ev := &Event{kind: EvCall, name: "WriteTo", method: "Write", recv: ci.args[0], args: []*Val{c}, snaps: []*Val{c}, res: []*Val{n, e}, pos: ci.pos, in: ci.in}
			s.add(ev)
		}
		n := convert(mkLen(c), types.Typ[types.Int64])
		wr(st, nilErr, n)
		in.setBuf(st, p, empty)
		outs = append(outs, modelOut{st: st, res: []*Val{n, nilErr}})
		e := newErr(fail, tError, "write-error")
		k := atom(types.Typ[types.Int64], fail.label("short-count"))
		fail.facts.refine(k, Range{big.NewInt(0), big.NewInt(1 << 62)})
		wr(fail, e, k)
		in.setBuf(fail, p, seqSub(c, convert(k, tInt), mkLen(c)))
		outs = append(outs, modelOut{st: fail, res: []*Val{k, e}})
		return outs, true
	}
	return nil, false
}

// userBuf is a caller's buffer of n bytes with unknown content.
func (in *Interp) userBuf(st *State, label string, n *Val) *Val {
	t := types.NewSlice(tByte)
	o := in.newObj(st, types.NewPointer(t), label)
	st.heap[contentKey(o)] = seqAtom(t, label, n)
	return mk(OView, t, "", o, mkInt(0), n)
}
