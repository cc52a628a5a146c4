package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = &check{run: runC11, min: 3,
		rule: "on every path TApplicationException.Write performs struct begin, the message as string field 1 (it may be left out when empty), the type as i32 field 2, field stop, struct end; Read takes message and type from exactly those fields, skips every other id or type, in any order and number, and ends with the struct; every failing operation ends the call with that error",
		expl: "Abstract interpretation of both methods over an abstract protocol with symbolic exception type, message, field ids and field types; nested skips are one operation.",
		asm:  []string{"Skip obeys C10"},
	}
}

func runC11(c *Ctx) {
	rule := "application-exception"
	p := c.newProto("prot")
	skip := c.prog.Func("Skip")
	if p == nil || !c.need("function Skip", skip != nil) {
		return
	}
	p.also = func(in *Interp, st *State, ci *callInfo) (string, bool) {
		return "skip", ci.sfn == skip || ci.fn != nil && ci.fn.Name() == "Skip" && p.isMe(ci.recv)
	}
	l := c.newLab(rule, Config{Model: p.model, Unroll: 3, PossiblePanics: true, Opaque: func(f *ssa.Function) bool { return f == skip }})
	tid, msg := atom(tI32, "typeId"), atom(tString, "message")
	st := l.in.start()
	st.facts.isnil[p.v] = false
	o, ok := l.one("NewTApplicationException", l.fn("NewTApplicationException", st, tid, msg))
	if !ok {
		return
	}
	exc := o.rets[0]
	field := func(t *tr, id, typ int, val string, v *Val) {
		e := t.op2("WriteFieldBegin", func(e *Event) {
			if !sameVal(t.f, e.args[1], c.ttype(typ)) || !sameVal(t.f, e.args[2], mkIntT(tI16, int64(id))) {
				t.fail("field %v of type %v where %d of type %d belongs", e.args[2], e.args[1], id, typ)
			}
		})
		_ = e
		t.op2(val, func(e *Event) {
			if !sameVal(t.f, e.args[0], v) {
				t.fail("writes %v where %v belongs", e.args[0], v)
			}
		})
		t.op("WriteFieldEnd")
	}
	c.traces(rule, "Write", l.meth(o.st, exc, "Write", p.v), func(t *tr) {
		t.op("WriteStructBegin")
		// the two fields may come in either order
		m, k := false, false
		for i := 0; i < 2; i++ {
			if t.peek() != "WriteFieldBegin" {
				break
			}
			id := t.evs[t.i].args[2]
			switch {
			case !m && sameVal(t.f, id, mkIntT(tI16, 1)):
				m = true
				field(t, 1, 11, "WriteString", msg)
			case !k:
				k = true
				field(t, 2, 8, "WriteI32", tid)
			default:
				t.fail("a second field %v", id)
			}
		}
		if !k {
			t.fail("the type is not written")
		}
		if !m && t.is(mkLtInt(mkInt(0), mkLen(msg))) {
			t.fail("the message is not written")
		}
		t.op("WriteFieldStop")
		t.op("WriteStructEnd")
		t.end(false)
	})
	n := 0
	outs := l.meth(o.st, exc, "Read", p.v)
	c.traces(rule, "Read", outs, func(t *tr) {
		tt, id := c.ttype, func(i int) *Val { return mkIntT(tI16, int64(i)) }
		var gm, gt *Val
		t.op("ReadStructBegin")
		for {
			e := t.op("ReadFieldBegin")
			ft, fid := e.res[1], e.res[2]
			if t.is(mkEq(ft, tt(0))) {
				break
			}
			n++
			switch {
			case t.is(mkEq(fid, id(1))) && t.is(mkEq(ft, tt(11))):
				gm = t.op("ReadString").res[0]
			case t.is(mkEq(fid, id(2))) && t.is(mkEq(ft, tt(8))):
				gt = t.op("ReadI32").res[0]
			default:
				t.op2("skip", func(e *Event) {
					ok := false
					for _, a := range e.args {
						ok = ok || sameTypeVal(t.f, a, ft)
					}
					if !ok {
						t.fail("skips another type than the field's %v", ft)
					}
				})
			}
			t.op("ReadFieldEnd")
		}
		t.op("ReadStructEnd")
		if errState(t.o.st, t.o.rets[1]) >= 0 {
			t.end(false)
		}
		r := t.o.rets[0]
		if nn, ok := t.o.st.facts.nilness(r); !ok || nn {
			t.fail("the exception read is %v", r)
		}
		if gt == nil {
			gt = mkIntT(tI32, 0)
		}
		if gm == nil {
			gm = mkStr("")
		}
		s := t.o.st
		if x, ok := l.one("TypeId", l.meth(s, r, "TypeId")); ok && !mentionsAtom(x.rets[0], "loop:") && !sameVal(t.f, x.rets[0], gt) {
			t.fail("the exception read has type %v, the wire says %v", x.rets[0], gt)
		}
		if x, ok := l.one("Error", l.meth(s, r, "Error")); ok && !mentionsAtom(x.rets[0], "loop:") && !sameVal(t.f, x.rets[0], gm) {
			t.fail("the exception read has message %v, the wire says %v", x.rets[0], gm)
		}
		t.end(false)
	})
	c.ob(rule, "fields reached", n >= 20, "%d fields on all paths", n)
}

func sameTypeVal(f *Facts, a, b *Val) bool {
	return a != nil && a.typ == b.typ && sameVal(f, a, b)
}
