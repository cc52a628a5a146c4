package main

import (
	"fmt"
	"go/types"
)

func init() {
	checks["C02"] = &check{run: runC02, min: 21,
		rule: "every path of every TBinaryProtocol Read method on which the transport delivers consumes exactly the bytes of the binary layout, returns the values those bytes encode, and rejects exactly the inputs the format rejects (wrong version, missing version under strict read, negative length)",
		expl: "Abstract interpretation of the SSA of each Read method reached from the exported constructor. The input is an unbounded sequence of symbolic bytes; reads of constant size yield individual bytes, reads of symbolic size one segment. Consumed bytes and results are compared as terms; conditions of the format which a path leaves open are split, so each case is compared.",
		asm:  []string{"ReadAll fills the whole buffer or returns an error (decided for this repository under C08)", "encoding/binary, math and io.ReadFull behave as documented"},
	}
}

func (r *rd) str(i int, size *Val) {
	n := convert(size, tInt)
	if r.is(mkLtInt(n, mkInt(0))) {
		r.reject = true
		panic(doneCase{})
	}
	s := r.block(n)
	r.retSeq(i, s)
}

type doneCase struct{}

func (r *rd) run(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(doneCase); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func runC02(c *Ctx) {
	tt := c.prog.Type("TType")
	mt := c.prog.Type("TMessageType")
	for _, strict := range []bool{true, false} {
		w := c.newWire("binary-read")
		ps := w.construct("NewTBinaryProtocol", mkBool(strict), mkBool(true))
		if ps == nil {
			return
		}
		w.reads(fmt.Sprintf("ReadMessageBegin strict=%v", strict), w.call(ps, ps.st, "ReadMessageBegin"), func(r *rd) {
			r.run(func() {
				b := r.bytes(4)
				head := beVal(tI32, b)
				if r.is(mkLtInt(head, mkIntT(tI32, 0))) {
					if !r.is(mkEq(beVal(types.Typ[types.Uint16], b[:2]), mkIntT(types.Typ[types.Uint16], 0x8001))) {
						r.reject = true
						return
					}
					r.ret(1, convert(b[3], mt))
					r.str(0, beVal(tI32, r.bytes(4)))
					r.ret(2, beVal(tI32, r.bytes(4)))
					return
				}
				if strict {
					r.reject = true
					return
				}
				r.str(0, head)
				r.ret(1, convert(r.bytes(1)[0], mt))
				r.ret(2, beVal(tI32, r.bytes(4)))
			})
		})
	}
	w := c.newWire("binary-read")
	ps := w.construct("NewTBinaryProtocol", mkBool(false), mkBool(true))
	if ps == nil {
		return
	}
	for _, m := range []string{"ReadMessageEnd", "ReadStructBegin", "ReadStructEnd", "ReadFieldEnd", "ReadMapEnd", "ReadListEnd", "ReadSetEnd"} {
		w.reads(m, w.call(ps, ps.st, m), func(r *rd) {})
	}
	w.reads("ReadFieldBegin", w.call(ps, ps.st, "ReadFieldBegin"), func(r *rd) {
		b := r.bytes(1)[0]
		r.ret(1, convert(b, tt))
		if !r.is(mkEq(b, mkIntT(tByte, 0))) {
			r.ret(2, beVal(tI16, r.bytes(2)))
		}
	})
	for _, m := range []string{"ReadListBegin", "ReadSetBegin"} {
		w.reads(m, w.call(ps, ps.st, m), func(r *rd) {
			r.ret(0, convert(r.bytes(1)[0], tt))
			n := convert(beVal(tI32, r.bytes(4)), tInt)
			if r.is(mkLtInt(n, mkInt(0))) {
				r.reject = true
				return
			}
			r.ret(1, n)
		})
	}
	w.reads("ReadMapBegin", w.call(ps, ps.st, "ReadMapBegin"), func(r *rd) {
		r.ret(0, convert(r.bytes(1)[0], tt))
		r.ret(1, convert(r.bytes(1)[0], tt))
		n := convert(beVal(tI32, r.bytes(4)), tInt)
		if r.is(mkLtInt(n, mkInt(0))) {
			r.reject = true
			return
		}
		r.ret(2, n)
	})
	w.reads("ReadBool", w.call(ps, ps.st, "ReadBool"), func(r *rd) {
		b := r.bytes(1)[0]
		if r.is(mkEq(b, mkIntT(tByte, 1))) {
			r.ret(0, mkBool(true))
		} else if r.is(mkEq(b, mkIntT(tByte, 0))) {
			r.ret(0, mkBool(false))
		} else {
			r.errOK = true
		}
	})
	for _, x := range []struct {
		m string
		t types.Type
		n int
	}{{"ReadByte", tByte, 1}, {"ReadI16", tI16, 2}, {"ReadI32", tI32, 4}, {"ReadI64", tI64, 8}} {
		w.reads(x.m, w.call(ps, ps.st, x.m), func(r *rd) { r.ret(0, beVal(x.t, r.bytes(x.n))) })
	}
	w.reads("ReadDouble", w.call(ps, ps.st, "ReadDouble"), func(r *rd) {
		r.ret(0, mk(OCall, tF64, "math.Float64frombits", beVal(tU64, r.bytes(8))))
	})
	for _, m := range []string{"ReadString", "ReadBinary"} {
		w.reads(m, w.call(ps, ps.st, m), func(r *rd) { r.run(func() { r.str(0, beVal(tI32, r.bytes(4))) }) })
	}
}
