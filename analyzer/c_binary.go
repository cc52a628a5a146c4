package main

import (
	"fmt"
	"go/types"
)

var (
	tI16 = types.Typ[types.Int16]
	tI32 = types.Typ[types.Int32]
	tI64 = types.Typ[types.Int64]
	tF64 = types.Typ[types.Float64]
	tU64 = types.Typ[types.Uint64]
)

// the types a field, list, set or map element can have on the wire
var wireTypes = []struct {
	name string
	id   int
}{{"BOOL", 2}, {"BYTE", 3}, {"DOUBLE", 4}, {"I16", 6}, {"I32", 8}, {"I64", 10}, {"STRING", 11}, {"STRUCT", 12}, {"MAP", 13}, {"SET", 14}, {"LIST", 15}, {"BINARY", 18}}

var msgTypes = []struct {
	name string
	id   int
}{{"CALL", 1}, {"REPLY", 2}, {"EXCEPTION", 3}, {"ONEWAY", 4}}

func wireId(id int) int {
	if id == 18 {
		return 11
	}
	return id
}

func (c *Ctx) ttype(id int) *Val { return mkIntT(c.prog.Type("TType"), int64(id)) }
func (c *Ctx) mtype(id int) *Val { return mkIntT(c.prog.Type("TMessageType"), int64(id)) }

// writes decides that every path of a writing method on which the transport
// accepts the bytes returns no error and has put exactly want on the wire.
func (w *wire) writes(key string, outs []Outcome, want *Val) {
	c := w.c
	if len(outs) == 0 && w.in.err == nil {
		c.undecided(w.rule, key, "no outcome")
	}
	fine := 0
	defer func() {
		if fine == 0 {
			c.undecided(w.rule, key, "no path on which the transport takes everything")
		}
	}()
	for _, o := range outs {
		if o.kind != XReturn {
			c.ob(w.rule, key, false, "%s", c.descOutcome(o))
			continue
		}
		got, failed := written(o.st)
		if failed {
			continue // error propagation is a property of its own
		}
		fine++
		es := errState(o.st, o.rets[len(o.rets)-1])
		if es > 0 {
			c.ob(w.rule, key, false, "reports an error although the transport took every byte: %s", c.descOutcome(o))
			continue
		}
		g, x := simpSeq(o.st.facts, got), simpSeq(o.st.facts, want)
		c.ob(w.rule, key, g == x, "puts %v on the wire; the format is %v (%s)", g, x, c.pos(o.pos))
	}
}

func init() {
	checks["C01"] = &check{run: runC01, min: 60,
		rule: "every path of every TBinaryProtocol Write method on which the transport accepts the data returns nil and the concatenation of the bytes handed to the transport equals the binary-protocol layout of the arguments, as terms over symbolic arguments",
		expl: "Abstract interpretation of the SSA of each Write method reached from the exported constructor, with symbolic arguments, helper calls followed to any depth, and the transport abstract (accept or fail). The bytes of all Write calls of a path are concatenated to a term in normal form and compared with the layout term. Type and message-type arguments are enumerated; all other arguments stay symbolic.",
		asm:  []string{"io.Writer contract: Write returns an error when it takes fewer bytes than given, and does not modify its argument", "encoding/binary, math, strings.Reader and io.CopyN behave as documented"},
	}
}

func runC01(c *Ctx) {
	for _, strict := range []bool{true, false} {
		w := c.newWire("binary-write")
		ps := w.construct("NewTBinaryProtocol", mkBool(false), mkBool(strict))
		if ps == nil {
			return
		}
		name := atom(tString, "name")
		for _, mt := range msgTypes {
			seq := atom(tI32, "seqid")
			e := &seqb{}
			if strict {
				e.lit(0x80, 0x01, 0, mt.id).be(mkLen(name), 4).splice(name).be(seq, 4)
			} else {
				e.be(mkLen(name), 4).splice(name).lit(mt.id).be(seq, 4)
			}
			w.writes(fmt.Sprintf("WriteMessageBegin %s strict=%v", mt.name, strict), w.call(ps, ps.st, "WriteMessageBegin", name, c.mtype(mt.id), seq), e.seq())
		}
	}
	w := c.newWire("binary-write")
	ps := w.construct("NewTBinaryProtocol", mkBool(false), mkBool(true))
	if ps == nil {
		return
	}
	empty := (&seqb{}).seq()
	name := atom(tString, "name")
	w.writes("WriteMessageEnd", w.call(ps, ps.st, "WriteMessageEnd"), empty)
	w.writes("WriteStructBegin", w.call(ps, ps.st, "WriteStructBegin", name), empty)
	for _, m := range []string{"WriteStructEnd", "WriteFieldEnd", "WriteMapEnd", "WriteListEnd", "WriteSetEnd"} {
		w.writes(m, w.call(ps, ps.st, m), empty)
	}
	w.writes("WriteFieldStop", w.call(ps, ps.st, "WriteFieldStop"), (&seqb{}).lit(0).seq())
	id := atom(tI16, "id")
	size := atom(tInt, "size")
	for _, t := range wireTypes {
		w.writes("WriteFieldBegin "+t.name, w.call(ps, ps.st, "WriteFieldBegin", name, c.ttype(t.id), id), (&seqb{}).lit(wireId(t.id)).be(id, 2).seq())
		w.writes("WriteListBegin "+t.name, w.call(ps, ps.st, "WriteListBegin", c.ttype(t.id), size), (&seqb{}).lit(wireId(t.id)).be(size, 4).seq())
		w.writes("WriteSetBegin "+t.name, w.call(ps, ps.st, "WriteSetBegin", c.ttype(t.id), size), (&seqb{}).lit(wireId(t.id)).be(size, 4).seq())
		w.writes("WriteMapBegin "+t.name+",STRING", w.call(ps, ps.st, "WriteMapBegin", c.ttype(t.id), c.ttype(11), size), (&seqb{}).lit(wireId(t.id), 11).be(size, 4).seq())
		w.writes("WriteMapBegin I32,"+t.name, w.call(ps, ps.st, "WriteMapBegin", c.ttype(8), c.ttype(t.id), size), (&seqb{}).lit(8, wireId(t.id)).be(size, 4).seq())
	}
	w.writes("WriteBool true", w.call(ps, ps.st, "WriteBool", mkBool(true)), (&seqb{}).lit(1).seq())
	w.writes("WriteBool false", w.call(ps, ps.st, "WriteBool", mkBool(false)), (&seqb{}).lit(0).seq())
	for _, x := range []struct {
		m string
		t types.Type
		n int
	}{{"WriteByte", tByte, 1}, {"WriteI16", tI16, 2}, {"WriteI32", tI32, 4}, {"WriteI64", tI64, 8}} {
		v := atom(x.t, "value")
		w.writes(x.m, w.call(ps, ps.st, x.m, v), (&seqb{}).be(v, x.n).seq())
	}
	d := atom(tF64, "value")
	w.writes("WriteDouble", w.call(ps, ps.st, "WriteDouble", d), (&seqb{}).be(mk(OCall, tU64, "math.Float64bits", d), 8).seq())
	s := atom(tString, "value")
	w.writes("WriteString", w.call(ps, ps.st, "WriteString", s), (&seqb{}).be(mkLen(s), 4).splice(s).seq())
	b := atom(types.NewSlice(tByte), "value")
	w.writes("WriteBinary", w.call(ps, ps.st, "WriteBinary", b), (&seqb{}).be(mkLen(b), 4).splice(b).seq())
	f := w.method(ps, "WriteBinaryFromReader")
	if f != nil {
		r := atom(f.Params[1].Type(), "reader")
		st := ps.st.clone()
		st.facts.isnil[r] = false
		tc := types.NewSlice(tByte)
		w.writes("WriteBinaryFromReader", w.call(ps, st, "WriteBinaryFromReader", r, size), (&seqb{}).be(size, 4).splice(seqAtom(tc, "reader:"+r.String(), size)).seq())
	}
}
