package main

// JSON text as the specification sees it: a document is emitted or consumed by
// a sequence of protocol calls; each call owns one piece of the text. The same
// sequences serve the writers (the text must be produced) and the readers (the
// text, in any of the forms a value may have, must give the values back).

import (
	"golang.org/x/tools/go/ssa"

	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// jpart is a piece of text.
type jpart struct {
	kind byte // 'l' literal, 'i' decimal integer, 'q' quoted string, 'b' base64 in quotes, 'd' double
	lit  string
	v    *Val
	key  bool // quoted because it stands where JSON wants a key
}

// jstep is one call, the text it is responsible for and what reading gives back.
type jstep struct {
	wm    string
	wargs []*Val
	rm    string
	rets  []*Val // expected results of the read call, nil entries unchecked
	parts []jpart
	look  bool // reading may look at one byte more to see where the item ends
	peek  bool // reading looks at the first byte of what follows (end of fields)
}

// jdoc tracks where in the document the next item stands.
type jdoc struct {
	tj    bool // the full protocol; otherwise the simple one
	stack []byte
	steps []jstep
	n     int
}

// contexts: 'T' top level, 'f' first list item, 'l' further list item, 'F' first
// key, 'k' further key, 'v' value of a key

func newDoc(tj bool) *jdoc { return &jdoc{tj: tj, stack: []byte{'T'}} }

func (d *jdoc) clone() *jdoc {
	return &jdoc{tj: d.tj, stack: append([]byte(nil), d.stack...), steps: append([]jstep(nil), d.steps...), n: d.n}
}

func (d *jdoc) top() byte { return d.stack[len(d.stack)-1] }

func (d *jdoc) sep() []jpart {
	switch d.top() {
	case 'l', 'k':
		return []jpart{{kind: 'l', lit: ","}}
	case 'v':
		return []jpart{{kind: 'l', lit: ":"}}
	}
	return nil
}

func (d *jdoc) key() bool { return d.top() == 'F' || d.top() == 'k' }

func (d *jdoc) done() {
	m := map[byte]byte{'f': 'l', 'F': 'v', 'k': 'v', 'v': 'k', 'l': 'l', 'T': 'T'}
	d.stack[len(d.stack)-1] = m[d.top()]
}

// item is one value in the current place.
func (d *jdoc) item(p jpart) []jpart {
	s := d.sep()
	p.key = d.key() && p.kind != 'q' && p.kind != 'b'
	d.done()
	return append(s, p)
}

func (d *jdoc) open(c string, ctx byte) []jpart {
	s := append(d.sep(), jpart{kind: 'l', lit: c})
	d.stack = append(d.stack, ctx)
	return s
}

func (d *jdoc) close(c string) []jpart {
	d.stack = d.stack[:len(d.stack)-1]
	d.done()
	return []jpart{{kind: 'l', lit: c}}
}

func (d *jdoc) add(s jstep) *jdoc { d.steps = append(d.steps, s); return d }

func (d *jdoc) name(s string) string { d.n++; return fmt.Sprintf("%s%d", s, d.n) }

func jint(v *Val) jpart { return jpart{kind: 'i', v: v} }
func jstr(v *Val) jpart { return jpart{kind: 'q', v: v} }

// ends with a number that is not quoted: only what follows tells its end
func numberLast(ps []jpart) bool {
	p := ps[len(ps)-1]
	return (p.kind == 'i' || p.kind == 'd') && !p.key
}

func (d *jdoc) value(wm, rm string, v *Val, p jpart) *jdoc {
	ps := d.item(p)
	return d.add(jstep{wm: wm, wargs: []*Val{v}, rm: rm, rets: []*Val{v}, parts: ps, look: numberLast(ps)})
}

var scalarOps = []string{"bool-true", "bool-false", "byte", "i16", "i32", "i64", "double", "string", "binary"}

func (d *jdoc) scalar(op string) *jdoc {
	switch op {
	case "bool-true", "bool-false":
		t := op == "bool-true"
		return d.value("WriteBool", "ReadBool", mkBool(t), jpart{kind: 'l', lit: fmt.Sprint(t)})
	case "byte":
		v := atom(tByte, d.name("b"))
		return d.value("WriteByte", "ReadByte", v, jint(v))
	case "i16":
		v := atom(types.Typ[types.Int16], d.name("h"))
		return d.value("WriteI16", "ReadI16", v, jint(v))
	case "i32":
		v := atom(types.Typ[types.Int32], d.name("i"))
		return d.value("WriteI32", "ReadI32", v, jint(v))
	case "i64":
		v := atom(types.Typ[types.Int64], d.name("n"))
		return d.value("WriteI64", "ReadI64", v, jint(v))
	case "double":
		v := atom(types.Typ[types.Float64], d.name("x"))
		return d.value("WriteDouble", "ReadDouble", v, jpart{kind: 'd', v: v})
	case "string":
		v := atom(tString, d.name("s"))
		return d.value("WriteString", "ReadString", v, jstr(v))
	case "binary":
		v := atom(types.NewSlice(tByte), d.name("bin"))
		return d.value("WriteBinary", "ReadBinary", v, jpart{kind: 'b', v: v})
	}
	panic(op)
}

// size is any size the protocol can carry.
func (d *jdoc) size() *Val { return convert(atom(types.Typ[types.Int32], d.name("size")), tInt) }

// typeCode is a wire type used where it does not matter which.
func (c *Ctx) ttypeNamed(n string) *Val {
	t := c.prog.Type("TType")
	if k := c.prog.ConstVal(n); k != nil && t != nil {
		return mkConst(k.Val(), t)
	}
	c.need("constant "+n, false)
	return mkInt(0)
}

func (d *jdoc) list(c *Ctx, kind string) *jdoc { return d.listOf(c, kind, "I32") } // List or Set

func (d *jdoc) listOf(c *Ctx, kind, elem string) *jdoc {
	ps := d.open("[", 'f')
	et, n := c.ttypeNamed(elem), d.size()
	ps = append(ps, d.item(jint(et))...)
	ps = append(ps, d.item(jint(n))...)
	return d.add(jstep{wm: "Write" + kind + "Begin", wargs: []*Val{et, n}, rm: "Read" + kind + "Begin", rets: []*Val{et, n}, parts: ps, look: true})
}

func (d *jdoc) mapBegin(c *Ctx) *jdoc { return d.mapOf(c, "I32", "BOOL") }

// jtypes are the names wire types have in JSON.
var jtypes = map[string]string{"BOOL": "tf", "BYTE": "i8", "I16": "i16", "I32": "i32", "I64": "i64", "DOUBLE": "dbl", "STRING": "str",
	"STRUCT": "rec", "MAP": "map", "SET": "set", "LIST": "lst"}

var jtypeOrder = []string{"BOOL", "BYTE", "I16", "I32", "I64", "DOUBLE", "STRING", "STRUCT", "MAP", "SET", "LIST"}

func (d *jdoc) mapOf(c *Ctx, k, v string) *jdoc {
	ps := d.open("[", 'f')
	kt, vt, n := c.ttypeNamed(k), c.ttypeNamed(v), d.size()
	if d.tj {
		ps = append(ps, d.item(jstr(mkStr(jtypes[k])))...)
		ps = append(ps, d.item(jstr(mkStr(jtypes[v])))...)
	} else {
		ps = append(ps, d.item(jint(kt))...)
		ps = append(ps, d.item(jint(vt))...)
	}
	ps = append(ps, d.item(jint(n))...)
	return d.add(jstep{wm: "WriteMapBegin", wargs: []*Val{kt, vt, n}, rm: "ReadMapBegin", rets: []*Val{kt, vt, n}, parts: ps, look: true})
}

func (d *jdoc) end(kind string) *jdoc {
	return d.add(jstep{wm: "Write" + kind + "End", rm: "Read" + kind + "End", parts: d.close("]")})
}

func (d *jdoc) message(c *Ctx) *jdoc {
	ps := d.open("[", 'f')
	name, seq := atom(tString, d.name("method")), atom(types.Typ[types.Int32], d.name("seq"))
	mt := convert(atom(tByte, d.name("mtype")), c.prog.Type("TMessageType"))
	if d.tj {
		ps = append(ps, d.item(jint(mkInt(1)))...)
	}
	ps = append(ps, d.item(jstr(name))...)
	ps = append(ps, d.item(jint(mt))...)
	ps = append(ps, d.item(jint(seq))...)
	return d.add(jstep{wm: "WriteMessageBegin", wargs: []*Val{name, mt, seq}, rm: "ReadMessageBegin", rets: []*Val{name, mt, seq}, parts: ps, look: true})
}

func (d *jdoc) structBegin() *jdoc {
	return d.add(jstep{wm: "WriteStructBegin", wargs: []*Val{atom(tString, d.name("struct"))}, rm: "ReadStructBegin", rets: []*Val{mkStr("")}, parts: d.open("{", 'F')})
}

func (d *jdoc) structEnd() *jdoc {
	d.add(jstep{wm: "WriteFieldStop"})
	return d.add(jstep{wm: "WriteStructEnd", rm: "ReadStructEnd", parts: d.close("}")})
}

func (d *jdoc) field(c *Ctx, typ, text string) *jdoc {
	name, id := atom(tString, d.name("field")), atom(types.Typ[types.Int16], d.name("id"))
	ft := c.ttypeNamed(typ)
	if d.tj {
		ps := d.item(jint(id))
		ps = append(ps, d.open("{", 'F')...)
		ps = append(ps, d.item(jstr(mkStr(text)))...)
		return d.add(jstep{wm: "WriteFieldBegin", wargs: []*Val{name, ft, id}, rm: "ReadFieldBegin", rets: []*Val{mkStr(""), ft, id}, parts: ps})
	}
	ps := d.item(jstr(name))
	return d.add(jstep{wm: "WriteFieldBegin", wargs: []*Val{name, ft, id}, rm: "ReadFieldBegin", rets: []*Val{name, c.ttypeNamed("GENERIC"), mkIntT(types.Typ[types.Int16], -1)}, parts: ps})
}

func (d *jdoc) fieldEnd() *jdoc {
	var ps []jpart
	if d.tj {
		ps = d.close("}")
	}
	return d.add(jstep{wm: "WriteFieldEnd", rm: "ReadFieldEnd", parts: ps})
}

var nullOps = []string{"bool", "byte", "i16", "i32", "i64", "double", "string", "binary", "list", "set", "map", "struct"}

// null is the JSON null where a value of some kind is read: the zero value, or
// a container without elements.
func (d *jdoc) null(c *Ctx, op string) *jdoc {
	ps := d.item(jpart{kind: 'l', lit: "null"})
	read := func(m string, t typ, z int64) *jdoc {
		return d.add(jstep{rm: m, rets: []*Val{mkIntT(t, z)}, parts: ps})
	}
	n0 := mkInt(0)
	switch op {
	case "bool":
		return d.add(jstep{rm: "ReadBool", rets: []*Val{mkBool(false)}, parts: ps})
	case "byte":
		return read("ReadByte", tByte, 0)
	case "i16":
		return read("ReadI16", types.Typ[types.Int16], 0)
	case "i32":
		return read("ReadI32", types.Typ[types.Int32], 0)
	case "i64":
		return read("ReadI64", types.Typ[types.Int64], 0)
	case "double":
		return d.add(jstep{rm: "ReadDouble", rets: []*Val{mkConst(constant.MakeFloat64(0), types.Typ[types.Float64])}, parts: ps})
	case "string":
		return d.add(jstep{rm: "ReadString", rets: []*Val{mkStr("")}, parts: ps})
	case "binary":
		return d.add(jstep{rm: "ReadBinary", rets: []*Val{mkSeq(types.NewSlice(tByte), nil, nil)}, parts: ps})
	case "list":
		return d.add(jstep{rm: "ReadListBegin", rets: []*Val{nil, n0}, parts: ps}).add(jstep{rm: "ReadListEnd"})
	case "set":
		return d.add(jstep{rm: "ReadSetBegin", rets: []*Val{nil, n0}, parts: ps}).add(jstep{rm: "ReadSetEnd"})
	case "map":
		return d.add(jstep{rm: "ReadMapBegin", rets: []*Val{nil, nil, n0}, parts: ps}).add(jstep{rm: "ReadMapEnd"})
	case "struct":
		return d.add(jstep{rm: "ReadStructBegin", parts: ps}).add(jstep{rm: "ReadFieldBegin", rets: []*Val{nil, c.ttypeNamed("STOP"), nil}}).add(jstep{rm: "ReadStructEnd"})
	}
	panic(op)
}

// typeDocs use every wire type as field type, key type and value type.
func (c *Ctx) typeDocs(tj bool) map[string]*jdoc {
	m := map[string]*jdoc{}
	for i, k := range jtypeOrder {
		v := jtypeOrder[(i+4)%len(jtypeOrder)]
		m["field of type "+k] = newDoc(tj).structBegin().field(c, k, jtypes[k]).scalar("i32").fieldEnd().stop(c).structEnd()
		m["map of "+k+" to "+v] = newDoc(tj).mapOf(c, k, v).end("Map")
		for _, l := range []string{"List", "Set"} {
			m[l+" of "+k] = newDoc(tj).listOf(c, l, k).end(l)
		}
	}
	return m
}

// stop is the look at the end of the fields of a struct when reading.
func (d *jdoc) stop(c *Ctx) *jdoc {
	return d.add(jstep{rm: "ReadFieldBegin", rets: []*Val{nil, c.ttypeNamed("STOP"), nil}, peek: true})
}

// composite is a whole value of a container kind with its parts.
func (d *jdoc) composite(c *Ctx, kind string) *jdoc {
	switch kind {
	case "empty-list":
		return d.list(c, "List").end("List")
	case "list":
		return d.list(c, "List").scalar("i32").scalar("string").end("List")
	case "set":
		return d.list(c, "Set").scalar("binary").scalar("i64").end("Set")
	case "empty-map":
		return d.mapBegin(c).end("Map")
	case "map":
		return d.mapBegin(c).scalar("string").scalar("double").scalar("i32").scalar("bool-true").end("Map")
	case "empty-struct":
		return d.structBegin().stop(c).structEnd()
	case "struct":
		return d.structBegin().field(c, "I32", "i32").scalar("i32").fieldEnd().field(c, "STRING", "str").scalar("string").fieldEnd().stop(c).structEnd()
	}
	panic(kind)
}

var compositeOps = []string{"empty-list", "list", "set", "empty-map", "map", "empty-struct", "struct"}

func (d *jdoc) op(c *Ctx, op string) *jdoc {
	for _, k := range compositeOps {
		if k == op {
			return d.composite(c, k)
		}
	}
	return d.scalar(op)
}

// jplace is a place in a document: calls that lead there, and what follows.
type jplace struct {
	name   string
	before func(d *jdoc) *jdoc
	after  func(d *jdoc) *jdoc
}

func (c *Ctx) jplaces() []jplace {
	id := func(d *jdoc) *jdoc { return d }
	return []jplace{
		{"top level", id, func(d *jdoc) *jdoc { return d }},
		{"list", func(d *jdoc) *jdoc { return d.list(c, "List") }, func(d *jdoc) *jdoc { return d.scalar("i32").end("List") }},
		{"set, second element", func(d *jdoc) *jdoc { return d.list(c, "Set").scalar("i16") }, func(d *jdoc) *jdoc { return d.end("Set") }},
		{"map", func(d *jdoc) *jdoc { return d.mapBegin(c) }, func(d *jdoc) *jdoc { return d.scalar("i64").scalar("string").scalar("byte").end("Map") }},
		{"map value", func(d *jdoc) *jdoc { return d.mapBegin(c).scalar("i32") }, func(d *jdoc) *jdoc { return d.end("Map") }},
		{"field", func(d *jdoc) *jdoc { return d.structBegin().field(c, "I64", "i64") }, func(d *jdoc) *jdoc { return d.fieldEnd().stop(c).structEnd() }},
		{"second field", func(d *jdoc) *jdoc {
			return d.structBegin().field(c, "I64", "i64").scalar("i64").fieldEnd().field(c, "BOOL", "tf")
		}, func(d *jdoc) *jdoc {
			return d.fieldEnd().field(c, "BYTE", "i8").scalar("byte").fieldEnd().stop(c).structEnd()
		}},
		{"message", func(d *jdoc) *jdoc { return d.message(c).structBegin().field(c, "I64", "i64") }, func(d *jdoc) *jdoc { return d.fieldEnd().stop(c).structEnd().end("Message") }},
		{"list of lists of structs", func(d *jdoc) *jdoc {
			return d.list(c, "List").list(c, "Set").structBegin().field(c, "I64", "i64")
		}, func(d *jdoc) *jdoc { return d.fieldEnd().stop(c).structEnd().end("Set").scalar("i32").end("List") }},
		{"message, map, list, field", func(d *jdoc) *jdoc {
			return d.message(c).structBegin().field(c, "MAP", "map").mapBegin(c).scalar("string").list(c, "List")
		}, func(d *jdoc) *jdoc {
			return d.scalar("string").end("List").end("Map").fieldEnd().field(c, "I64", "i64").scalar("i64").fieldEnd().stop(c).structEnd().end("Message")
		}},
	}
}

// ---------------------------------------------------------------- text terms

// decTerm is the decimal representation of an integer.
func decTerm(v *Val) *Val {
	if n, ok := v.intConst(); ok {
		return mkStr(n.String())
	}
	v = peel(v)
	return mk(OCall, tString, "decimal", v)
}

// jsonQuoted is the JSON string for s.
func jsonQuoted(s *Val) *Val {
	bs := types.NewSlice(tByte)
	seq := mkSeq(bs, []*Val{s}, []byte{'s'})
	q := &seqb{}
	q.lit('"')
	run := ""
	flush := func() {
		if run != "" {
			t := strconv.Quote(run)
			if b, err := jsonMarshal(run); err == nil {
				t = b
			}
			q.splice(mkStr(t[1 : len(t)-1]))
			run = ""
		}
	}
	for i, x := range seq.args {
		if n, ok := x.i64(); ok && seq.aux[i] == 'e' && n < 0x80 {
			run += string(rune(n))
			continue
		}
		flush()
		switch {
		case seq.aux[i] == 's' && x.op == OCall && (x.aux == "decimal" || x.aux == "shortest"):
			q.splice(x)
		case seq.aux[i] == 's':
			q.splice(mk(OCall, tString, "json-escaped", x))
		default:
			q.splice(mk(OCall, tString, "json-escaped", mkSeq(bs, []*Val{x}, []byte{'e'})))
		}
	}
	flush()
	q.lit('"')
	return q.seq()
}

func base64Term(content *Val) *Val {
	if content.op == OSeq && len(content.args) == 0 {
		return mkStr("")
	}
	return mk(OCall, tString, "base64", content)
}

// wireText is the text of a part as a writer must produce it. Doubles have
// several forms, the reading rd decides between them.
func (r *sd) wireText(p jpart) {
	q := r.want
	quote := func(v *Val) {
		if p.key {
			q.lit('"')
		}
		q.splice(v)
		if p.key {
			q.lit('"')
		}
	}
	switch p.kind {
	case 'l':
		quote(mkStr(p.lit))
	case 'i':
		quote(decTerm(p.v))
	case 'q':
		q.splice(jsonQuoted(p.v))
	case 'b':
		q.lit('"')
		q.splice(base64Term(mkSeq(types.NewSlice(tByte), []*Val{p.v}, []byte{'s'})))
		q.lit('"')
	case 'd':
		inf := mkConst(constant.MakeFloat64(math.MaxFloat64), p.v.typ)
		ninf := mkConst(constant.MakeFloat64(-math.MaxFloat64), p.v.typ)
		switch {
		case r.is(mkNot(mkEq(p.v, p.v))):
			q.splice(mkStr(`"NaN"`))
		case r.is(ltAny(inf, p.v)):
			q.splice(mkStr(`"Infinity"`))
		case r.is(ltAny(p.v, ninf)):
			q.splice(mkStr(`"-Infinity"`))
		default:
			quote(mk(OCall, tString, "shortest", p.v))
		}
	}
}

// jsonStd models the library calls of the JSON protocols.
func (w *wire) jsonStd(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	bs := types.NewSlice(tByte)
	base10 := func(v *Val) bool { n, ok := v.i64(); return ok && n == 10 }
	switch ci.name {
	case "strconv.FormatInt", "strconv.FormatUint":
		if base10(ci.args[1]) {
			return one(decTerm(ci.args[0]))
		}
	case "strconv.Itoa":
		return one(decTerm(ci.args[0]))
	case "strconv.AppendInt", "strconv.AppendUint":
		if base10(ci.args[2]) {
			return one(mkSeq(bs, []*Val{in.content(st, ci.args[0]), decTerm(ci.args[1])}, []byte("ss")))
		}
	case "strconv.FormatBool":
		if b, ok := ci.args[0].boolConst(); ok {
			return one(mkStr(map[bool]string{true: "true", false: "false"}[b]))
		}
	case "fmt.Sprint", "fmt.Sprintf":
		if r := in.sprintCalls(st, ci); r != nil {
			return r, true
		}
	case "strconv.FormatFloat", "strconv.AppendFloat":
		a := ci.args
		if ci.name == "strconv.AppendFloat" {
			a = a[1:]
		}
		f, ok1 := a[1].i64()
		p, ok2 := a[2].i64()
		b, ok3 := a[3].i64()
		if ok1 && ok2 && ok3 && p == -1 && b == 64 && strings.ContainsRune("egEGf", rune(f)) {
			t := mk(OCall, tString, "shortest", a[0])
			if ci.name == "strconv.AppendFloat" {
				return one(mkSeq(bs, []*Val{in.content(st, ci.args[0]), t}, []byte("ss")))
			}
			return one(t)
		}
	case "math.IsNaN":
		return one(mkNot(mkEq(ci.args[0], ci.args[0])))
	case "math.IsInf":
		if s, ok := ci.args[1].i64(); ok {
			x := ci.args[0]
			inf := ltAny(mkConst(constant.MakeFloat64(math.MaxFloat64), x.typ), x)
			ninf := ltAny(x, mkConst(constant.MakeFloat64(-math.MaxFloat64), x.typ))
			switch {
			case s > 0:
				return one(inf)
			case s < 0:
				return one(ninf)
			}
		}
	case "encoding/json.Marshal":
		if v := unwrapIface(ci.args[0]); v != nil && isString(v.typ) {
			return one(jsonQuoted(v), mkNil(tError))
		}
	case "encoding/json.Unmarshal":
		dst := unwrapIface(ci.args[1])
		if dst == nil || elemType(dst.typ) == nil || !isString(elemType(dst.typ)) {
			return nil, false
		}
		text := mkSeq(bs, []*Val{in.content(st, ci.args[0])}, []byte{'s'})
		if in0 := w.plainStr[text]; in0 != nil {
			in.store(st, dst, mk(OConv, tString, "", in0))
			if len(in0.args) == 0 {
				in.store(st, dst, mkStr(""))
			}
			return one(mkNil(tError))
		}
		if w.validStr[text] {
			in.store(st, dst, mk(OCall, tString, "unquoted", text))
			return one(mkNil(tError))
		}
		if s, ok := constText(text); ok {
			var v string
			if json.Unmarshal([]byte(s), &v) == nil {
				in.store(st, dst, mkStr(v))
				return one(mkNil(tError))
			}
			return one(newErr(st, tError, "json-error"))
		}
		bad := st.clone()
		in.store(st, dst, mk(OCall, tString, "unquoted", text))
		return []modelOut{{st: st, res: []*Val{mkNil(tError)}}, {st: bad, res: []*Val{newErr(bad, tError, "json-error")}}}, true
	case "strconv.ParseInt", "strconv.Atoi":
		it, bits := ci.sig.Results().At(0).Type(), 64
		if ci.name == "strconv.ParseInt" {
			b, ok := ci.args[2].i64()
			if !base10(ci.args[1]) || !ok || b < 0 || b > 64 {
				return nil, false
			}
			if b > 0 {
				bits = int(b)
			}
		}
		text := mkSeq(bs, []*Val{in.content(st, ci.args[0])}, []byte{'s'})
		switch v, k := w.parseInt(st, text, it, bits); k {
		case 1:
			return one(v, mkNil(tError))
		case -1:
			return one(mkIntT(it, 0), newErr(st, tError, "not-an-integer"))
		case -2:
			return one(v, newErr(st, tError, "out-of-range"))
		case 2:
			bad := st.clone()
			return []modelOut{{st: st, res: []*Val{v, mkNil(tError)}}, {st: bad, res: []*Val{mk(OCall, it, "clamped", text), newErr(bad, tError, "out-of-range")}}}, true
		}
		return nil, false
	case "strconv.ParseFloat":
		text := mkSeq(bs, []*Val{in.content(st, ci.args[0])}, []byte{'s'})
		f64 := types.Typ[types.Float64]
		switch w.parseFloat(st, text) {
		case 1:
			return one(mk(OCall, f64, "parsefloat", text), mkNil(tError))
		case -1:
			return one(mkConst(constant.MakeFloat64(0), f64), newErr(st, tError, "not-a-number"))
		case -2:
			return one(mk(OCall, f64, "clamped", text), newErr(st, tError, "out-of-range"))
		case 2:
			bad := st.clone()
			return []modelOut{{st: st, res: []*Val{mk(OCall, f64, "parsefloat", text), mkNil(tError)}}, {st: bad, res: []*Val{mk(OCall, f64, "clamped", text), newErr(bad, tError, "out-of-range")}}}, true
		}
		return nil, false
	case "(*encoding/base64.Encoding).DecodedLen":
		if n, ok := ci.args[0].intConst(); ok && n.IsInt64() {
			return one(mkInt(int64(base64.StdEncoding.DecodedLen(int(n.Int64())))))
		}
		return one(mk(OCall, tInt, "decoded-len", ci.args[0]))
	case "(*encoding/base64.Encoding).Decode", "(*encoding/base64.Encoding).DecodeString":
		if !w.stdEncoding(ci.recv) {
			return nil, false
		}
		src := ci.args[len(ci.args)-1]
		text := mkSeq(bs, []*Val{in.content(st, src)}, []byte{'s'})
		if ci.name == "(*encoding/base64.Encoding).Decode" {
			// the destination has to hold everything the source may decode to
			need := mk(OCall, tInt, "decoded-len", mkLen(src))
			if n, ok := mkLen(src).intConst(); ok && n.IsInt64() {
				need = mkInt(int64(base64.StdEncoding.DecodedLen(int(n.Int64()))))
			} else {
				st.facts.refine(need, Range{big.NewInt(0), big.NewInt(1 << 40)})
				st.facts.assume(mkLtInt(mkLen(src), need), false)
			}
			if small := st.clone(); !enoughFor(mkLen(ci.args[0]), need, mkLen(src)) && small.facts.assume(mkLtInt(mkLen(ci.args[0]), need), true) {
				return []modelOut{{st: small, panic: "base64 destination may be too small"}}, true
			}
		}
		var v *Val
		if len(text.args) == 0 {
			v = mkSeq(bs, nil, nil)
		} else {
			v = unbase64(text)
		}
		n := mkLen(v)
		st.facts.refine(n, Range{big.NewInt(0), big.NewInt(1 << 40)})
		if _, ok := mkLen(src).intConst(); !ok {
			st.facts.assume(mkLtInt(mk(OCall, tInt, "decoded-len", mkLen(src)), n), false)
		}
		ct, isConst := constText(text)
		_, cerr := base64.StdEncoding.DecodeString(ct)
		valid := isConst && cerr == nil || len(text.args) == 0 || len(text.args) == 1 && text.aux == "s" && strings.HasPrefix(text.args[0].aux, "base64:")
		var outs []modelOut
		if !valid {
			bad := st.clone()
			e := newErr(bad, tError, "corrupt-base64")
			cnt := atom(tInt, bad.label("decoded"))
			bad.facts.refine(cnt, Range{big.NewInt(0), big.NewInt(1 << 40)})
			bad.facts.assume(mkLtInt(mk(OCall, tInt, "decoded-len", mkLen(src)), cnt), false)
			if ci.name == "(*encoding/base64.Encoding).Decode" {
				outs = append(outs, modelOut{st: bad, res: []*Val{cnt, e}})
			} else {
				outs = append(outs, modelOut{st: bad, res: []*Val{seqAtom(bs, bad.label("decoded-part"), cnt), e}})
			}
		}
		if isConst && cerr != nil {
			return outs, true
		}
		if ci.name == "(*encoding/base64.Encoding).DecodeString" {
			return append(outs, modelOut{st: st, res: []*Val{v, mkNil(tError)}}), true
		}
		dst := ci.args[0]
		if dst.op == OView && mkLen(dst) != mkInt(0) {
			in.setContent(st, mk(OView, dst.typ, "", dst.args[0], dst.args[1], n), v)
		}
		return append(outs, modelOut{st: st, res: []*Val{n, mkNil(tError)}}), true
	case "encoding/base64.NewEncoder":
		o := in.newObj(st, ci.sig.Results().At(0).Type(), "base64-encoder")
		if !w.stdEncoding(ci.args[0]) {
			return nil, false
		}
		st.heap[encKey(o)] = mkSeq(bs, nil, nil)
		st.heap[encDst(o)] = ci.args[1]
		return one(o)
	case "(*encoding/base64.Encoding).EncodeToString":
		if w.stdEncoding(ci.recv) {
			return one(base64Term(mkSeq(bs, []*Val{in.content(st, ci.args[0])}, []byte{'s'})))
		}
	case "(*encoding/base64.Encoding).EncodedLen":
		return one(mk(OCall, tInt, "encoded-len", ci.args[0]))
	case "(*encoding/base64.Encoding).Encode":
		if w.stdEncoding(ci.recv) {
			src := mkSeq(bs, []*Val{in.content(st, ci.args[1])}, []byte{'s'})
			if mkLen(ci.args[0]) == mk(OCall, tInt, "encoded-len", mkLen(ci.args[1])) {
				in.setContent(st, ci.args[0], mkSeq(bs, []*Val{base64Term(src)}, []byte{'s'}))
				return one()
			}
		}
	}
	if ci.recv != nil {
		if acc, ok := st.heap[encKey(ci.recv)]; ok && ci.fn != nil {
			switch ci.fn.Name() {
			case "Write":
				st.heap[encKey(ci.recv)] = mkSeq(bs, []*Val{acc, in.content(st, ci.args[0])}, []byte("ss"))
				outs := []modelOut{{st: st, res: []*Val{mkLen(ci.args[0]), mkNil(tError)}}}
				if !w.noFail {
					fail := st.clone()
					e := newErr(fail, tError, "write-error")
					w.event(fail, ci, "write-fail", nil, e)
					cnt := atom(tInt, fail.label("short-count"))
					fail.facts.refine(cnt, Range{big.NewInt(0), big.NewInt(1 << 62)})
					outs = append(outs, modelOut{st: fail, res: []*Val{cnt, e}})
				}
				return outs, true
			case "Close":
				dst := st.heap[encDst(ci.recv)]
				if !w.isTrans(dst) {
					return nil, false
				}
				t := base64Term(acc)
				o := w.doWrite(st, ci, mkSeq(bs, []*Val{t}, []byte{'s'}), mkLen(t), tInt)
				for i := range o {
					o[i].res = o[i].res[1:]
				}
				return o, true
			}
		}
	}
	return nil, false
}

func encKey(o *Val) *Val { return mk(OFieldAddr, types.NewPointer(tInt), "base64-pending", o) }
func encDst(o *Val) *Val { return mk(OFieldAddr, types.NewPointer(tInt), "base64-to", o) }

func unwrapIface(v *Val) *Val {
	if v.op == OIface {
		return v.args[0]
	}
	return nil
}

// stdEncoding: the value is base64.StdEncoding.
func (w *wire) stdEncoding(v *Val) bool {
	return v != nil && v.op == OLoad && len(v.args) == 1 && v.args[0].op == OGlobal && strings.HasSuffix(v.args[0].aux, "base64.StdEncoding")
}

func unbase64(text *Val) *Val {
	bs := types.NewSlice(tByte)
	return seqAtom(bs, fmt.Sprintf("unbase64:%d", text.id), mk(OCall, tInt, "unbase64-len", text))
}

// constText is the text if all its bytes are known.
func constText(seq *Val) (string, bool) {
	var sb []byte
	for i, x := range seq.args {
		n, ok := x.i64()
		if !ok || seq.aux[i] != 'e' {
			return "", false
		}
		sb = append(sb, byte(n))
	}
	return string(sb), true
}

// class of a byte of a number: 'd' digit, itself for a sign, point or exponent,
// 'x' something else, 0 unknown.
func numClass(st *State, x *Val) byte {
	if n, ok := x.i64(); ok {
		switch {
		case n >= '0' && n <= '9':
			return 'd'
		case n == '+' || n == '-' || n == '.':
			return byte(n)
		case n == 'e' || n == 'E':
			return 'e'
		}
		return 'x'
	}
	r := rangeOf(x, st.facts)
	if r.lo.Cmp(r.hi) == 0 {
		return numClass(st, mkBig(tByte, r.lo))
	}
	if r.lo.Cmp(big.NewInt('0')) >= 0 && r.hi.Cmp(big.NewInt('9')) <= 0 {
		return 'd'
	}
	for _, k := range "+-.eE0123456789" {
		if st.facts.eval(mkEq(x, mkIntT(tByte, int64(k)))) == 0 {
			return 0
		}
	}
	return 'x'
}

// parseInt reads decimal text: 1 valid, -1 invalid, -2 out of range, 2 valid or out of range, 0 unknown.
func (w *wire) parseInt(st *State, text *Val, t types.Type, bits int) (*Val, int) {
	i, neg := 0, false
	if len(text.args) > 0 && text.aux[0] == 'e' {
		switch numClass(st, text.args[0]) {
		case '-':
			neg = true
			i++
		case '+':
			i++
		}
	}
	n := len(text.args) - i
	if n == 0 {
		return nil, -1
	}
	for j := i; j < len(text.args); j++ {
		if text.aux[j] != 'e' {
			return nil, 0
		}
		switch numClass(st, text.args[j]) {
		case 'd':
		case 0:
			return nil, 0
		default:
			return nil, -1
		}
	}
	// the interval the digits span
	lo, hi := new(big.Int), new(big.Int)
	ten := big.NewInt(10)
	for _, x := range text.args[i:] {
		r := rangeOf(x, st.facts)
		lo.Mul(lo, ten).Add(lo, r.lo).Sub(lo, big.NewInt('0'))
		hi.Mul(hi, ten).Add(hi, r.hi).Sub(hi, big.NewInt('0'))
	}
	if neg {
		lo, hi = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
	}
	max := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	min := new(big.Int).Neg(max)
	in := func(x *big.Int) bool { return x.Cmp(min) >= 0 && x.Cmp(max) < 0 }
	switch {
	case in(lo) && in(hi):
		return digitsValue(text.args[i:], neg, t), 1
	case lo.Cmp(max) >= 0 || hi.Cmp(min) < 0:
		return mk(OCall, t, "clamped", text), -2
	}
	return digitsValue(text.args[i:], neg, t), 2
}

// digitsValue is the number a run of decimal digits denotes.
func digitsValue(ds []*Val, neg bool, t types.Type) *Val {
	l := linForm{c: big.NewInt(0)}
	p := big.NewInt(1)
	if neg {
		p = big.NewInt(-1)
	}
	for k := len(ds) - 1; k >= 0; k-- {
		d := toLin(convert(ds[k], t))
		d = linAdd(d, linForm{c: big.NewInt('0')}, -1)
		l = linAdd(l, linScale(d, p), 1)
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	return fromLin(t, l)
}

// parseFloat: 1 valid, -1 invalid, 2 valid or out of range, 0 unknown.
func (w *wire) parseFloat(st *State, text *Val) int {
	if s, ok := constText(text); ok {
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			return 1
		} else if errors.Is(err, strconv.ErrRange) {
			return -2
		}
		return -1
	}
	var cl []byte
	for i, x := range text.args {
		if text.aux[i] != 'e' {
			return 0
		}
		c := numClass(st, x)
		if c == 0 {
			return 0
		}
		cl = append(cl, c)
	}
	i := 0
	digits := func() int {
		n := 0
		for i < len(cl) && cl[i] == 'd' {
			i++
			n++
		}
		return n
	}
	sign := func() {
		if i < len(cl) && (cl[i] == '+' || cl[i] == '-') {
			i++
		}
	}
	sign()
	n := digits()
	if i < len(cl) && cl[i] == '.' {
		i++
		n += digits()
	}
	if n == 0 {
		return -1
	}
	exp := 0
	if i < len(cl) && cl[i] == 'e' {
		i++
		sign()
		if exp = digits(); exp == 0 {
			return -1
		}
	}
	if i < len(cl) {
		return -1
	}
	if exp > 2 || n > 200 {
		return 2
	}
	return 1
}

func sortedKeys(m map[string]*jdoc) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// enoughFor says whether the length got is at least the length need, both
// functions of the length n.
func enoughFor(got, need, n *Val) bool {
	if got == need {
		return true
	}
	if _, ok := n.intConst(); ok {
		return false
	}
	for k := int64(0); k <= 4096; k++ {
		if g, ok := evalInt(got, n, k); !ok || g < int64(base64.StdEncoding.DecodedLen(int(k))) {
			return false
		}
	}
	return true
}

// evalInt is the value of v where x is k.
func evalInt(v, x *Val, k int64) (int64, bool) {
	if v == x {
		return k, true
	}
	if n, ok := v.intConst(); ok {
		return n.Int64(), n.IsInt64()
	}
	switch v.op {
	case OLin:
		l := v.obj.(linForm)
		s := l.c.Int64()
		for _, t := range l.terms {
			n, ok := evalInt(t.v, x, k)
			if !ok {
				return 0, false
			}
			s += t.coef.Int64() * n
		}
		return s, true
	case OBin:
		a, ok1 := evalInt(v.args[0], x, k)
		b, ok2 := evalInt(v.args[1], x, k)
		if !ok1 || !ok2 || a < 0 || b <= 0 {
			return 0, false
		}
		switch v.aux {
		case "/":
			return a / b, true
		case "%":
			return a % b, true
		case "*":
			return a * b, true
		case ">>":
			return a >> uint(b), true
		case "<<":
			return a << uint(b), true
		}
	case OCall:
		if v.aux == "decoded-len" {
			n, ok := evalInt(v.args[0], x, k)
			return int64(base64.StdEncoding.DecodedLen(int(n))), ok
		}
	}
	return 0, false
}

// sprintCalls: fmt.Sprint and fmt.Sprintf of arguments whose text is known or that have a method for it.
func (in *Interp) sprintCalls(st *State, ci *callInfo) []modelOut {
	list := in.content(st, ci.args[len(ci.args)-1])
	if list.op != OSeq || strings.Contains(list.aux, "s") {
		return nil
	}
	type part struct {
		st    *State
		texts map[int]*Val
	}
	parts := []part{{st, map[int]*Val{}}}
	for i, a := range list.args {
		if a.op != OIface {
			continue
		}
		m := in.prog.textMethod(a.args[0].typ)
		if m == nil {
			continue
		}
		if !in.lookInto(m) {
			return nil
		}
		var next []part
		for _, q := range parts {
			for _, o := range in.callFn(m, []*Val{a.args[0]}, nil, q.st.clone()) {
				if o.kind != XReturn || len(o.rets) != 1 {
					return nil
				}
				texts := map[int]*Val{i: o.rets[0]}
				for k, t := range q.texts {
					texts[k] = t
				}
				next = append(next, part{o.st, texts})
			}
		}
		parts = next
	}
	var r []modelOut
	for _, q := range parts {
		t := in.sprintWith(ci, list, q.texts)
		if t == nil {
			return nil
		}
		r = append(r, modelOut{st: q.st, res: []*Val{t}})
	}
	return r
}

// textMethod is the method package fmt takes the text of a value from.
func (p *Program) textMethod(t types.Type) *ssa.Function {
	ms := types.NewMethodSet(t)
	for _, name := range []string{"Error", "String"} {
		if s := ms.Lookup(nil, name); s != nil {
			if sig := s.Obj().Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
				return p.ssa.MethodValue(s)
			}
		}
	}
	return nil
}

func (in *Interp) sprintWith(ci *callInfo, list *Val, texts map[int]*Val) *Val {
	text := func(i int, verb byte) *Val {
		if t := texts[i]; t != nil && (verb == 's' || verb == 'v') {
			return t
		}
		v := list.args[i]
		if v.op != OIface {
			return nil
		}
		x := v.args[0]
		if _, named := x.typ.(*types.Named); named && verb != 'd' {
			return nil
		}
		switch {
		case isInt(x.typ) && (verb == 'd' || verb == 'v'):
			return decTerm(x)
		case isString(x.typ) && (verb == 's' || verb == 'v'):
			return x
		}
		return nil
	}
	if ci.name == "fmt.Sprint" {
		if len(list.args) != 1 {
			return nil
		}
		return text(0, 'v')
	}
	f, ok := ci.args[0].strConst()
	if !ok {
		return nil
	}
	var out *Val
	add := func(v *Val) {
		if out == nil {
			out = v
		} else {
			out = mkConcat(tString, out, v)
		}
	}
	n := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			add(mkStr(f))
			break
		}
		if i > 0 {
			add(mkStr(f[:i]))
		}
		if i+1 >= len(f) {
			return nil
		}
		if f[i+1] == '%' {
			add(mkStr("%"))
		} else {
			if n >= len(list.args) {
				return nil
			}
			t := text(n, f[i+1])
			if t == nil {
				return nil
			}
			n++
			add(t)
		}
		f = f[i+2:]
	}
	if n != len(list.args) {
		return nil
	}
	return out
}
