package main

import (
	"fmt"
	"go/types"
)

type typ = types.Type

var (
	tI8    = types.Typ[types.Int8]
	tU16   = types.Typ[types.Uint16]
	tU32   = types.Typ[types.Uint32]
	tBytes = types.NewSlice(types.Typ[types.Byte])
)

// compact type codes
var compactCode = map[int]int{2: 1, 3: 3, 6: 4, 8: 5, 10: 6, 4: 7, 11: 8, 18: 8, 15: 9, 14: 10, 13: 11, 12: 12}
var compactBack = map[int]int{1: 2, 2: 2, 3: 3, 4: 6, 5: 8, 6: 10, 7: 4, 8: 11, 9: 15, 10: 14, 11: 13, 12: 12}

func init() {
	checks["C03"] = &check{run: runC03, min: 20,
		rule: "every path of the TCompactProtocol scalar methods writes exactly, respectively consumes and decodes exactly, the compact encoding: zigzag varints in canonical length, little-endian IEEE doubles, varint-prefixed bytes, one raw byte; varints over ten bytes are rejected",
		expl: "Abstract interpretation of the SSA of each scalar method from the exported constructor with symbolic arguments or symbolic input bytes; varint loops are bounded by the width of the value and followed exactly at the level of single bits. Every length case is compared with the bit-level statement of the encoding.",
		asm:  []string{"io.Writer/ReadAll contracts", "encoding/binary, math behave as documented"},
	}
	checks["C04"] = &check{run: runC04, min: 60,
		rule: "every path of the TCompactProtocol message, list, set, map and field headers writes exactly, respectively consumes and decodes exactly, the compact header layout, with the type codes of the format, and rejects wrong protocol ids, wrong versions, unknown type codes and negative sizes",
		expl: "As C03, for headers; message types and element types are enumerated on the writing side and symbolic on the reading side.",
		asm:  []string{"io.Writer/ReadAll contracts"},
	}
	checks["C05"] = &check{run: runC05, min: 6,
		rule: "along every path of the analysed call sequences field headers are delta-encoded against the previous field of the same struct, nested structs start afresh and leave the outer struct's position intact, and boolean fields carry their value in the header exactly once",
		expl: "Abstract interpretation of sequences of TCompactProtocol calls (struct, field, nested struct, field after it, boolean fields) with symbolic field ids and values; all combinations of short and long headers are compared with the layout.",
		asm:  []string{"io.Writer/ReadAll contracts"},
	}
}

func (w *wire) compact() *protoState {
	w.noFail = true
	w.in.cfg.Unroll = 12
	return w.construct("NewTCompactProtocol")
}

// wr decides one writing call against a stepwise layout.
func (w *wire) wr(ps *protoState, st *State, key string, sp step, spec func(r *sd)) {
	w.sessions(key, "write", w.play(ps, st, key, sp), func(r *sd) { r.step(); spec(r) })
}
func (w *wire) rdc(ps *protoState, key, m string, spec func(r *sd)) {
	w.sessions(key, "read", w.play(ps, ps.st, key, call(m)), func(r *sd) { r.step(); spec(r) })
}

func (r *sd) varint(n int) *Val {
	v, long, opt := r.takeVarint(n)
	if long {
		r.mustReject()
	}
	if opt && r.s.stop == r.at {
		r.free()
	}
	return v
}

func (r *sd) binary(i int) {
	n := convert(r.varint(32), tI32)
	r.rejectIf(mkLtInt(n, mkIntT(tI32, 0)))
	if r.is(mkEq(n, mkIntT(tI32, 0))) {
		r.resultSeq(i, (&seqb{}).seq())
		return
	}
	r.resultSeq(i, r.block(n))
}

func runC03(c *Ctx) {
	w := c.newWire("compact-scalar")
	ps := w.compact()
	if ps == nil {
		return
	}
	v16, v32, v64, vb := atom(tI16, "value"), atom(tI32, "value"), atom(tI64, "value"), atom(tByte, "value")
	w.wr(ps, ps.st, "WriteByte", call("WriteByte", vb), func(r *sd) { r.want.bytes(vb) })
	w.wr(ps, ps.st, "WriteI16", call("WriteI16", v16), func(r *sd) { r.emitVarint(zigzag(convert(v16, tI32))) })
	w.wr(ps, ps.st, "WriteI32", call("WriteI32", v32), func(r *sd) { r.emitVarint(zigzag(v32)) })
	w.wr(ps, ps.st, "WriteI64", call("WriteI64", v64), func(r *sd) { r.emitVarint(zigzag(v64)) })
	d := atom(tF64, "value")
	w.wr(ps, ps.st, "WriteDouble", call("WriteDouble", d), func(r *sd) { r.want.le(mk(OCall, tU64, "math.Float64bits", d), 8) })
	for _, m := range []string{"WriteString", "WriteBinary"} {
		var s *Val
		if m == "WriteString" {
			s = atom(tString, "value")
		} else {
			s = atom(tBytes, "value")
		}
		w.wr(ps, ps.st, m, call(m, s), func(r *sd) {
			n := convert(mkLen(s), tU32)
			r.emitVarint(n)
			if !r.is(mkEq(mkLen(s), mkInt(0))) {
				r.want.splice(s)
			}
		})
	}
	w.wr(ps, ps.st, "WriteBool true", call("WriteBool", mkBool(true)), func(r *sd) { r.want.lit(1) })
	w.wr(ps, ps.st, "WriteBool false", call("WriteBool", mkBool(false)), func(r *sd) { r.want.lit(2) })

	w.rdc(ps, "ReadByte", "ReadByte", func(r *sd) { r.result(0, r.bytes(1)[0]) })
	w.rdc(ps, "ReadI16", "ReadI16", func(r *sd) { r.result(0, convert(unzigzag(r.varint(32), 32), tI16)) })
	w.rdc(ps, "ReadI32", "ReadI32", func(r *sd) { r.result(0, unzigzag(r.varint(32), 32)) })
	w.rdc(ps, "ReadI64", "ReadI64", func(r *sd) { r.result(0, unzigzag(r.varint(64), 64)) })
	w.rdc(ps, "ReadDouble", "ReadDouble", func(r *sd) {
		r.result(0, mk(OCall, tF64, "math.Float64frombits", leVal(tU64, r.bytes(8))))
	})
	w.rdc(ps, "ReadString", "ReadString", func(r *sd) { r.binary(0) })
	w.rdc(ps, "ReadBinary", "ReadBinary", func(r *sd) { r.binary(0) })
	w.rdc(ps, "ReadBool", "ReadBool", func(r *sd) {
		b := r.bytes(1)[0]
		if r.is(mkEq(b, mkIntT(tByte, 1))) {
			r.result(0, mkBool(true))
		} else if r.is(mkEq(b, mkIntT(tByte, 2))) {
			r.result(0, mkBool(false))
		} else {
			r.free()
		}
	})
	for _, m := range []string{"WriteMessageEnd", "WriteFieldEnd", "WriteMapEnd", "WriteListEnd", "WriteSetEnd"} {
		w.wr(ps, ps.st, m, call(m), func(r *sd) {})
	}
	for _, m := range []string{"ReadMessageEnd", "ReadFieldEnd", "ReadMapEnd", "ReadListEnd", "ReadSetEnd"} {
		w.rdc(ps, m, m, func(r *sd) {})
	}
}

func (r *sd) typeNibble(i int, nib *Val) {
	for code := 1; code <= 12; code++ {
		if r.is(mkEq(nib, mkIntT(tByte, int64(code)))) {
			r.result(i, r.w.c.ttype(compactBack[code]))
			return
		}
	}
	if r.is(mkEq(nib, mkIntT(tByte, 0))) {
		r.free()
	}
	r.mustReject()
}

func nibbles(b *Val) (lo, hi *Val) {
	x := toBits(b)
	z := toBits(mkIntT(tByte, 0))[:4]
	lo = fromBits(tByte, append(append([]*Bit(nil), x[:4]...), z...))
	hi = fromBits(tByte, append(append([]*Bit(nil), x[4:]...), z...))
	return
}

func runC04(c *Ctx) {
	w := c.newWire("compact-header")
	ps := w.compact()
	if ps == nil {
		return
	}
	mt := c.prog.Type("TMessageType")
	name, seqid := atom(tString, "name"), atom(tI32, "seqid")
	for _, t := range msgTypes {
		w.wr(ps, ps.st, "WriteMessageBegin "+t.name, call("WriteMessageBegin", name, c.mtype(t.id), seqid), func(r *sd) {
			r.want.lit(0x82, 1|t.id<<5)
			r.emitVarint(convert(seqid, tU32))
			r.emitVarint(convert(mkLen(name), tU32))
			if !r.is(mkEq(mkLen(name), mkInt(0))) {
				r.want.splice(name)
			}
		})
	}
	w.rdc(ps, "ReadMessageBegin", "ReadMessageBegin", func(r *sd) {
		if !r.is(mkEq(r.bytes(1)[0], mkIntT(tByte, 0x82))) {
			r.mustReject()
		}
		b := r.bytes(1)[0]
		x := toBits(b)
		zero := toBits(mkIntT(tByte, 0))[0]
		ver := fromBits(tByte, append(append([]*Bit(nil), x[:5]...), zero, zero, zero))
		if !r.is(mkEq(ver, mkIntT(tByte, 1))) {
			r.mustReject()
		}
		ty := fromBits(tByte, append(append([]*Bit(nil), x[5:]...), zero, zero, zero, zero, zero))
		r.result(1, convert(ty, mt))
		r.result(2, convert(r.varint(32), tI32))
		r.binary(0)
	})
	size := atom(tInt, "size")
	st := ps.st.clone()
	st.facts.assume(mkLtInt(size, mkInt(0)), false)
	st.facts.assume(mkLtInt(size, mkInt(1<<31)), true)
	for _, m := range []string{"WriteListBegin", "WriteSetBegin"} {
		for _, t := range wireTypes {
			w.wr(ps, st, m+" "+t.name, call(m, c.ttype(t.id), size), func(r *sd) {
				code := compactCode[t.id]
				if r.is(mkLtInt(size, mkInt(15))) {
					lo := toBits(mkIntT(tByte, int64(code)))[:4]
					r.want.bytes(fromBits(tByte, append(append([]*Bit(nil), lo...), toBits(size)[:4]...)))
					return
				}
				r.want.lit(0xf0 | code)
				r.emitVarint(convert(size, tU32))
			})
		}
	}
	for _, m := range []string{"ReadListBegin", "ReadSetBegin"} {
		w.rdc(ps, m, m, func(r *sd) {
			b := r.bytes(1)[0]
			lo, hi := nibbles(b)
			if r.is(mkEq(hi, mkIntT(tByte, 15))) {
				n := convert(r.varint(32), tI32)
				r.rejectIf(mkLtInt(n, mkIntT(tI32, 0)))
				r.result(1, convert(n, tInt))
			} else {
				r.result(1, convert(hi, tInt))
			}
			r.typeNibble(0, lo)
		})
	}
	for _, t := range wireTypes {
		for _, p := range [][2]int{{t.id, 11}, {8, t.id}} {
			w.wr(ps, st, fmt.Sprintf("WriteMapBegin %d,%d", p[0], p[1]), call("WriteMapBegin", c.ttype(p[0]), c.ttype(p[1]), size), func(r *sd) {
				if r.is(mkEq(size, mkInt(0))) {
					r.want.lit(0)
					return
				}
				r.emitVarint(convert(size, tU32))
				r.want.lit(compactCode[p[0]]<<4 | compactCode[p[1]])
			})
		}
	}
	w.rdc(ps, "ReadMapBegin", "ReadMapBegin", func(r *sd) {
		n := convert(r.varint(32), tI32)
		r.rejectIf(mkLtInt(n, mkIntT(tI32, 0)))
		r.result(2, convert(n, tInt))
		if r.is(mkEq(n, mkIntT(tI32, 0))) {
			return
		}
		lo, hi := nibbles(r.bytes(1)[0])
		r.typeNibble(0, hi)
		r.typeNibble(1, lo)
	})
	w.wr(ps, ps.st, "WriteFieldStop", call("WriteFieldStop"), func(r *sd) { r.want.lit(0) })
	// field headers of every type, first field of a struct
	id := atom(tI16, "id")
	for _, t := range wireTypes {
		if t.name == "BOOL" {
			continue
		}
		key := "WriteFieldBegin " + t.name
		w.sessions(key, "write", w.play(ps, ps.st, key, call("WriteStructBegin", name), call("WriteFieldBegin", name, c.ttype(t.id), id)), func(r *sd) {
			r.step()
			r.step()
			r.emitField(mkIntT(tI16, 0), id, compactCode[t.id])
		})
	}
	key := "ReadFieldBegin"
	w.sessions(key, "read", w.play(ps, ps.st, key, call("ReadStructBegin"), call("ReadFieldBegin")), func(r *sd) {
		r.step()
		r.step()
		r.takeField(mkIntT(tI16, 0))
	})
}

// emitField: the header of field id after last.
func (r *sd) emitField(last, id *Val, code int) {
	d := binopSub(convert(id, tInt), convert(last, tInt))
	if r.is(mkLtInt(mkInt(0), d)) && r.is(mkLtInt(d, mkInt(16))) {
		lo := toBits(mkIntT(tByte, int64(code)))[:4]
		r.want.bytes(fromBits(tByte, append(append([]*Bit(nil), lo...), toBits(d)[:4]...)))
		return
	}
	r.want.lit(code)
	r.emitVarint(zigzag(convert(id, tI32)))
}

// takeField consumes a field header and returns the id (nil at the stop field)
// and, for boolean fields, the value it carries.
func (r *sd) takeField(last *Val) (id *Val, val *Val) {
	tt := r.w.c.prog.Type("TType")
	lo, hi := nibbles(r.bytes(1)[0])
	if r.is(mkEq(lo, mkIntT(tByte, 0))) {
		r.result(1, mkIntT(tt, 0))
		return nil, nil
	}
	if r.is(mkEq(hi, mkIntT(tByte, 0))) {
		id = convert(unzigzag(r.varint(32), 32), tI16)
	} else {
		id = binopAdd(convert(last, tI16), convert(hi, tI16))
	}
	r.result(2, id)
	for code := 1; code <= 12; code++ {
		if r.is(mkEq(lo, mkIntT(tByte, int64(code)))) {
			r.result(1, r.w.c.ttype(compactBack[code]))
			if code <= 2 {
				return id, mkBool(code == 1)
			}
			return id, nil
		}
	}
	r.mustReject()
	return
}

func runC05(c *Ctx) {
	w := c.newWire("compact-nesting")
	ps := w.compact()
	if ps == nil {
		return
	}
	name := atom(tString, "name")
	id1, id2, id3 := atom(tI16, "id1"), atom(tI16, "id2"), atom(tI16, "id3")
	zero := mkIntT(tI16, 0)
	i32 := c.ttype(8)
	w.sessions("write nested struct", "write", w.play(ps, ps.st, "write nested struct",
		call("WriteStructBegin", name), call("WriteFieldBegin", name, c.ttype(12), id1),
		call("WriteStructBegin", name), call("WriteFieldBegin", name, i32, id2), call("WriteFieldStop"), call("WriteStructEnd"),
		call("WriteFieldBegin", name, i32, id3), call("WriteFieldStop"), call("WriteStructEnd")), func(r *sd) {
		r.step()
		r.step()
		r.emitField(zero, id1, 12)
		r.step()
		r.step()
		r.emitField(zero, id2, 5)
		r.step()
		r.want.lit(0)
		r.step()
		r.step()
		r.emitField(id1, id3, 5)
		r.step()
		r.want.lit(0)
		r.step()
	})
	// two structs one after the other start from the same position
	w.sessions("write struct after struct", "write", w.play(ps, ps.st, "write struct after struct",
		call("WriteStructBegin", name), call("WriteFieldBegin", name, i32, id1), call("WriteFieldStop"), call("WriteStructEnd"),
		call("WriteStructBegin", name), call("WriteFieldBegin", name, i32, id2)), func(r *sd) {
		r.step()
		r.step()
		r.emitField(zero, id1, 5)
		r.step()
		r.want.lit(0)
		r.step()
		r.step()
		r.step()
		r.emitField(zero, id2, 5)
	})
	for _, b := range []bool{true, false} {
		code := 2
		if b {
			code = 1
		}
		key := fmt.Sprintf("write bool field %v", b)
		w.sessions(key, "write", w.play(ps, ps.st, key,
			call("WriteStructBegin", name), call("WriteFieldBegin", name, c.ttype(2), id1), call("WriteBool", mkBool(b)), call("WriteFieldEnd"),
			call("WriteFieldBegin", name, i32, id2), call("WriteFieldEnd"), call("WriteBool", mkBool(b))), func(r *sd) {
			r.step()
			r.step()
			r.step()
			r.emitField(zero, id1, code)
			r.step()
			r.step()
			r.emitField(id1, id2, 5)
			r.step()
			r.step()
			r.want.lit(code)
		})
	}
	w.sessions("read nested struct", "read", w.play(ps, ps.st, "read nested struct",
		call("ReadStructBegin"), call("ReadFieldBegin").when(1, c.ttype(12)), call("ReadStructBegin"), call("ReadFieldBegin").when(1, i32), call("ReadStructEnd"), call("ReadFieldBegin").when(1, i32), call("ReadStructEnd")), func(r *sd) {
		r.step()
		r.step()
		a := r.fieldLite(zero)
		r.step()
		r.step()
		r.fieldLite(zero)
		r.step()
		r.step()
		r.fieldLite(a)
		r.step()
	})
	// leaving two levels at once must find the outermost position again
	stc := c.ttype(12)
	w.sessions("write three levels", "write", w.play(ps, ps.st, "write three levels",
		call("WriteStructBegin", name), call("WriteFieldBegin", name, stc, id1),
		call("WriteStructBegin", name), call("WriteFieldBegin", name, stc, id2),
		call("WriteStructBegin", name), call("WriteStructEnd"), call("WriteStructEnd"),
		call("WriteFieldBegin", name, i32, id3)), func(r *sd) {
		r.step()
		r.step()
		r.emitField(zero, id1, 12)
		r.step()
		r.step()
		r.emitField(zero, id2, 12)
		r.step()
		r.step()
		r.step()
		r.step()
		r.emitField(id1, id3, 5)
	})
	w.sessions("read three levels", "read", w.play(ps, ps.st, "read three levels",
		call("ReadStructBegin"), call("ReadFieldBegin").when(1, stc),
		call("ReadStructBegin"), call("ReadFieldBegin").when(1, stc),
		call("ReadStructBegin"), call("ReadStructEnd"), call("ReadStructEnd"),
		call("ReadFieldBegin").when(1, i32)), func(r *sd) {
		r.step()
		r.step()
		a := r.fieldLite(zero)
		r.step()
		r.step()
		r.fieldLite(zero)
		r.step()
		r.step()
		r.step()
		r.step()
		r.fieldLite(a)
	})
	w.sessions("read bool field", "read", w.play(ps, ps.st, "read bool field",
		call("ReadStructBegin"), call("ReadFieldBegin"), call("ReadBool"), call("ReadFieldEnd"), call("ReadBool")), func(r *sd) {
		r.step()
		r.step()
		id, v := r.takeField(zero)
		if id == nil || v == nil {
			r.free()
		}
		r.step()
		r.result(0, v)
		r.step()
		r.step()
		b := r.bytes(1)[0]
		if r.is(mkEq(b, mkIntT(tByte, 1))) {
			r.result(0, mkBool(true))
		} else if r.is(mkEq(b, mkIntT(tByte, 2))) {
			r.result(0, mkBool(false))
		} else {
			r.free()
		}
	})
}

// fieldLite: a header of the cases that matter for positions (I32 or STRUCT
// fields, id in the short form or as a varint of up to three bytes).
func (r *sd) fieldLite(last *Val) *Val {
	id, v := r.takeField(last)
	if id == nil || v != nil {
		r.free()
	}
	return id
}
