package main

// What the code the generator emits does: the emitted package and a driver
// beside it are analysed together with the library.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A tape is the strictest protocol: it gives back what was written, call for
// call, and refuses any other call.
const tapeSource = `package prog

import "thrift"

type vOp struct {
	kind   int
	name   string
	t, t2  thrift.TType
	n      int
	v      interface{}
}

type vTape struct {
	thrift.TProtocol
	ops  []*vOp
	at   int
	fail int
	mode int

	flushes int
	flush   func()
}

func vWire(t thrift.TType) thrift.TType { return thrift.TType(t.ThriftTypeId()) }

func vErr(m string) thrift.TProtocolException {
	return thrift.NewTProtocolException(thrift.INVALID_DATA, m)
}

func (p *vTape) put(o *vOp) thrift.TProtocolException {
	if p.fail == 0 {
		p.fail--
		return vErr("write fails")
	}
	p.fail--
	p.ops = append(p.ops, o)
	return nil
}

func (p *vTape) get(kind int) (*vOp, thrift.TProtocolException) {
	if p.fail == 0 && p.at < len(p.ops) {
		// only the error tells
		p.fail--
		p.at++
		if o := p.ops[p.at-1]; o.kind == kind {
			return o, vErr("read fails")
		}
		return &vOp{}, vErr("read fails")
	}
	p.fail--
	if p.at >= len(p.ops) {
		return &vOp{}, vErr("end")
	}
	o := p.ops[p.at]
	p.at++
	if o.kind != kind {
		return &vOp{}, vErr("another kind")
	}
	return o, nil
}

func (p *vTape) WriteMessageBegin(name string, t thrift.TMessageType, seq int32) thrift.TProtocolException {
	return p.put(&vOp{kind: 1, name: name, t: thrift.TType(t), v: seq})
}
func (p *vTape) WriteMessageEnd() thrift.TProtocolException { return p.put(&vOp{kind: 2}) }
func (p *vTape) WriteStructBegin(name string) thrift.TProtocolException { return p.put(&vOp{kind: 3, name: name}) }
func (p *vTape) WriteStructEnd() thrift.TProtocolException { return p.put(&vOp{kind: 4}) }
func (p *vTape) WriteFieldBegin(name string, t thrift.TType, id int16) thrift.TProtocolException {
	return p.put(&vOp{kind: 5, name: name, t: vWire(t), n: int(id)})
}
func (p *vTape) WriteFieldEnd() thrift.TProtocolException { return p.put(&vOp{kind: 6}) }
func (p *vTape) WriteFieldStop() thrift.TProtocolException { return p.put(&vOp{kind: 7}) }
func (p *vTape) WriteMapBegin(k, v thrift.TType, n int) thrift.TProtocolException {
	return p.put(&vOp{kind: 8, t: vWire(k), t2: vWire(v), n: n})
}
func (p *vTape) WriteMapEnd() thrift.TProtocolException { return p.put(&vOp{kind: 9}) }
func (p *vTape) WriteListBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.put(&vOp{kind: 10, t: vWire(t), n: n})
}
func (p *vTape) WriteListEnd() thrift.TProtocolException { return p.put(&vOp{kind: 11}) }
func (p *vTape) WriteSetBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.put(&vOp{kind: 12, t: vWire(t), n: n})
}
func (p *vTape) WriteSetEnd() thrift.TProtocolException { return p.put(&vOp{kind: 13}) }
func (p *vTape) WriteBool(v bool) thrift.TProtocolException { return p.put(&vOp{kind: 22, v: v}) }
func (p *vTape) WriteByte(v byte) thrift.TProtocolException { return p.put(&vOp{kind: 23, v: v}) }
func (p *vTape) WriteDouble(v float64) thrift.TProtocolException { return p.put(&vOp{kind: 24, v: v}) }
func (p *vTape) WriteI16(v int16) thrift.TProtocolException { return p.put(&vOp{kind: 26, v: v}) }
func (p *vTape) WriteI32(v int32) thrift.TProtocolException { return p.put(&vOp{kind: 28, v: v}) }
func (p *vTape) WriteI64(v int64) thrift.TProtocolException { return p.put(&vOp{kind: 30, v: v}) }
func (p *vTape) WriteString(v string) thrift.TProtocolException { return p.put(&vOp{kind: 31, v: v}) }
func (p *vTape) WriteBinary(v []byte) thrift.TProtocolException { return p.put(&vOp{kind: 38, v: v}) }

func (p *vTape) ReadMessageBegin() (string, thrift.TMessageType, int32, thrift.TProtocolException) {
	o, err := p.get(1)
	if err != nil {
		return "", 0, 0, err
	}
	return o.name, thrift.TMessageType(o.t), o.v.(int32), nil
}
func (p *vTape) ReadMessageEnd() thrift.TProtocolException { _, err := p.get(2); return err }
func (p *vTape) ReadStructBegin() (string, thrift.TProtocolException) { _, err := p.get(3); return "", err }
func (p *vTape) ReadStructEnd() thrift.TProtocolException { _, err := p.get(4); return err }
func (p *vTape) ReadFieldBegin() (string, thrift.TType, int16, thrift.TProtocolException) {
	if p.at < len(p.ops) && p.ops[p.at].kind == 7 {
		_, err := p.get(7)
		return "", thrift.STOP, 0, err
	}
	o, err := p.get(5)
	if o.kind != 5 {
		return "", thrift.STOP, 0, err
	}
	switch p.mode {
	case 1:
		return o.name, o.t, int16(o.n), err
	case 2:
		return o.name, thrift.GENERIC, -1, err
	}
	return "", o.t, int16(o.n), err
}
func (p *vTape) ReadFieldEnd() thrift.TProtocolException { _, err := p.get(6); return err }
func (p *vTape) ReadMapBegin() (thrift.TType, thrift.TType, int, thrift.TProtocolException) {
	o, err := p.get(8)
	return o.t, o.t2, o.n, err
}
func (p *vTape) ReadMapEnd() thrift.TProtocolException { _, err := p.get(9); return err }
func (p *vTape) ReadListBegin() (thrift.TType, int, thrift.TProtocolException) {
	o, err := p.get(10)
	return o.t, o.n, err
}
func (p *vTape) ReadListEnd() thrift.TProtocolException { _, err := p.get(11); return err }
func (p *vTape) ReadSetBegin() (thrift.TType, int, thrift.TProtocolException) {
	o, err := p.get(12)
	return o.t, o.n, err
}
func (p *vTape) ReadSetEnd() thrift.TProtocolException { _, err := p.get(13); return err }
func (p *vTape) ReadBool() (v bool, err thrift.TProtocolException) {
	o, err := p.get(22)
	if err == nil {
		v = o.v.(bool)
	}
	return v, err
}
func (p *vTape) ReadByte() (v byte, err thrift.TProtocolException) {
	o, err := p.get(23)
	if err == nil {
		v = o.v.(byte)
	}
	return v, err
}
func (p *vTape) ReadDouble() (v float64, err thrift.TProtocolException) {
	o, err := p.get(24)
	if err == nil {
		v = o.v.(float64)
	}
	return v, err
}
func (p *vTape) ReadI16() (v int16, err thrift.TProtocolException) {
	o, err := p.get(26)
	if err == nil {
		v = o.v.(int16)
	}
	return v, err
}
func (p *vTape) ReadI32() (v int32, err thrift.TProtocolException) {
	o, err := p.get(28)
	if err == nil {
		v = o.v.(int32)
	}
	return v, err
}
func (p *vTape) ReadI64() (v int64, err thrift.TProtocolException) {
	o, err := p.get(30)
	if err == nil {
		v = o.v.(int64)
	}
	return v, err
}
func (p *vTape) ReadString() (v string, err thrift.TProtocolException) {
	o, err := p.get(31)
	if err == nil {
		v = o.v.(string)
	}
	return v, err
}
func (p *vTape) ReadBinary() (v []byte, err thrift.TProtocolException) {
	o, err := p.get(38)
	if err == nil {
		v = o.v.([]byte)
	}
	return v, err
}
func (p *vTape) Skip(t thrift.TType) thrift.TProtocolException {
	var bad thrift.TProtocolException
	if p.fail == 0 {
		bad = vErr("skip fails")
	}
	p.fail--
	depth := 0
	for p.at < len(p.ops) {
		k := p.ops[p.at].kind
		p.at++
		switch k {
		case 3, 5, 8, 10, 12:
			depth++
		case 4, 6, 9, 11, 13:
			depth--
		}
		if depth == 0 {
			return bad
		}
	}
	return vErr("end")
}

type vTrans struct {
	thrift.TTransport
	t *vTape
}

func (p *vTape) Transport() thrift.TTransport { return &vTrans{t: p} }

func (p *vTape) Flush() thrift.TProtocolException {
	if p.fail == 0 {
		p.fail--
		return vErr("flush fails")
	}
	p.fail--
	p.flushes++
	if p.flush != nil {
		p.flush()
	}
	return nil
}

func (t *vTrans) Flush() error {
	if err := t.t.Flush(); err != nil {
		return err
	}
	return nil
}

func vFlat(ops []*vOp) []interface{} {
	var r []interface{}
	for _, o := range ops {
		r = append(r, o.kind, o.name, o.t, o.t2, o.n, o.v)
	}
	return r
}

func vList(t thrift.TType, xs ...interface{}) thrift.TList {
	l := thrift.NewTList(t, 0)
	for _, x := range xs {
		l.Push(x)
	}
	return l
}

func vSet(t thrift.TType, x interface{}) thrift.TSet {
	s := thrift.NewTSet(t, 0)
	s.Add(x)
	return s
}

func vMap(k, v thrift.TType, x, y interface{}) thrift.TMap {
	m := thrift.NewTMap(k, v, 0)
	m.Set(x, y)
	return m
}

func vListItems(l thrift.TList) []interface{} {
	var r []interface{}
	for i := 0; i < l.Len(); i++ {
		r = append(r, l.At(i))
	}
	return r
}
`

// genPkg type-checks an emitted package with a driver and builds it.
// Terms are told apart by what they print as, so every package has its own name.
func (c *Ctx) genPkg(name, key string, files map[string]string, driver string) *ssa.Package {
	m := map[string]string{"vtape.go": strings.Replace(tapeSource, "package prog\n", "package "+name+"\n", 1), "vdriver.go": "package " + name + "\n\nimport \"thrift\"\n\nvar _ thrift.TType\n\n" + driver}
	for n, s := range files {
		m[n] = s
	}
	if d := os.Getenv("VEMIT"); d != "" && strings.Contains(key, d) {
		for _, n := range sortedNames(m) {
			fmt.Printf("==== %s\n%s\n", n, m[n])
		}
	}
	imp := &genImporter{c.prog, map[string]*types.Package{}}
	q, asts, info, errs := c.prog.checkGo(name, m, imp)
	if len(errs) > 0 {
		e := excerpt(c.prog.fset, m, errs[0])
		if strings.HasPrefix(e, "v") {
			c.ob("driver", key, false, "the emitted interface is another one: %s", e)
		} else {
			c.notes = append(c.notes, "does not compile, see C31: "+key+": "+e)
			n, _ := c.extra["programs_not_compiled"].(int)
			c.extra["programs_not_compiled"] = n + 1
		}
		return nil
	}
	sp := c.prog.ssa.CreatePackage(q, asts, info, false)
	sp.Build()
	if c.prog.Gen == nil {
		c.prog.Gen = map[*types.Package]bool{}
	}
	c.prog.Gen[q] = true
	return sp
}

// leaf describes how a value of an IDL type is made of symbols and taken apart.
type leafType struct {
	t    *cobj // as declared
	tr   *cobj // true type
	goT  types.Type
	code int64
}

var idlGo = map[string]types.Type{"bool": types.Typ[types.Bool], "byte": types.Typ[types.Uint8], "i16": types.Typ[types.Int16], "i32": types.Typ[types.Int32], "i64": types.Typ[types.Int64], "double": types.Typ[types.Float64], "string": types.Typ[types.String], "binary": types.NewSlice(types.Typ[types.Uint8])}
var idlCode = map[string]int64{"bool": 2, "byte": 3, "double": 4, "i16": 6, "i32": 8, "i64": 10, "string": 11, "binary": 18}

func idlOf(t *cobj) leafType {
	l := leafType{t: t, tr: trueType(t).(*cobj)}
	switch {
	case l.tr.f["is_base_type"] == true:
		n := l.tr.f["name"].(string)
		l.goT, l.code = idlGo[n], idlCode[n]
	case l.tr.f["is_enum"] == true:
		l.goT, l.code = types.Typ[types.Int32], 8
	case l.tr.f["is_struct"] == true || l.tr.f["is_xception"] == true:
		l.code = 12
	case l.tr.f["is_map"] == true:
		l.code = 13
	case l.tr.f["is_set"] == true:
		l.code = 14
	case l.tr.f["is_list"] == true:
		l.code = 15
	}
	return l
}

// maker writes Go that makes values from parameters.
type maker struct {
	params []*Val
	decl   []string
}

func (m *maker) param(t types.Type) (string, *Val) {
	n := fmt.Sprintf("a%d", len(m.params))
	var v *Val
	if _, ok := t.(*types.Slice); ok {
		v = seqAtom(t, n, atom(tInt, "len("+n+")"))
	} else {
		v = atom(t, n)
	}
	m.params = append(m.params, v)
	m.decl = append(m.decl, n+" "+t.String())
	return n, v
}

// node is a value: the Go expression that makes it and what it should look like.
type node struct {
	l    leafType
	expr string
	v    *Val // symbol of a leaf
	kids []*node
	name string // of a struct's field
	id   int64
	req  int64
}

func pub(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(r)))
		} else {
			b.WriteRune(r)
		}
		up = false
	}
	return b.String()
}

// build makes a node of a type; elem tells that it goes into a container.
func (m *maker) build(t *cobj, elem bool) *node {
	n := &node{l: idlOf(t)}
	switch {
	case n.l.goT != nil:
		n.expr, n.v = m.param(n.l.goT)
		if n.l.tr.f["is_enum"] == true && !elem {
			n.expr = pub(n.l.tr.f["name"].(string)) + "(" + n.expr + ")"
		}
	case n.l.code == 12:
		var set string
		for _, f := range n.l.tr.f["members"].(*cvec).v {
			f := f.(*cobj)
			k := m.build(f.f["type"].(*cobj), false)
			k.name, k.id, k.req = f.f["name"].(string), f.f["key"].(int64), f.f["req"].(int64)
			n.kids = append(n.kids, k)
			set += "x." + pub(k.name) + " = " + k.expr + "; "
		}
		s := pub(n.l.tr.f["name"].(string))
		n.expr = "func() *" + s + " { x := New" + s + "(); " + set + "return x }()"
		return n
	case n.l.code == 15:
		e := n.l.tr.f["elem_type"].(*cobj)
		n.kids = []*node{m.build(e, true), m.build(e, true)}
		n.expr = fmt.Sprintf("vList(%d, %s, %s)", n.kids[0].l.code, n.kids[0].expr, n.kids[1].expr)
	case n.l.code == 14:
		n.kids = []*node{m.build(n.l.tr.f["elem_type"].(*cobj), true)}
		n.expr = fmt.Sprintf("vSet(%d, %s)", n.kids[0].l.code, n.kids[0].expr)
	case n.l.code == 13:
		n.kids = []*node{m.build(n.l.tr.f["key_type"].(*cobj), true), m.build(n.l.tr.f["val_type"].(*cobj), true)}
		n.expr = fmt.Sprintf("vMap(%d, %d, %s, %s)", n.kids[0].l.code, n.kids[1].l.code, n.kids[0].expr, n.kids[1].expr)
	}
	if t.f["is_typedef"] == true && !elem {
		n.expr = pub(t.f["name"].(string)) + "(" + n.expr + ")"
	}
	return n
}

// take writes Go that appends the leaves of the value x to out.
func (n *node) take(x string, elem bool, depth int) string {
	y := fmt.Sprintf("x%d", depth)
	if n.l.code == 12 {
		if elem {
			x = x + ".(*" + pub(n.l.tr.f["name"].(string)) + ")"
		}
		s := y + " := " + x + "; if " + y + " == nil { out = append(out, nil) } else { "
		for i, k := range n.kids {
			s += k.take(y+"."+pub(k.name), false, depth+1+i) + "; "
		}
		return s + "}"
	}
	if n.l.goT != nil {
		if elem {
			return "out = append(out, " + x + ".(" + n.l.goT.String() + "))"
		}
		return "out = append(out, " + n.l.goT.String() + "(" + x + "))"
	}
	kind := map[int64]string{13: "TMap", 14: "TSet", 15: "TList"}[n.l.code]
	if elem {
		x += ".(thrift." + kind + ")"
	}
	s := y + " := " + x + "; if " + y + " == nil { out = append(out, nil) } else { out = append(out, " + y + ".Len()); "
	e := fmt.Sprintf("e%d", depth)
	switch n.l.code {
	case 15:
		s += "for _, " + e + " := range vListItems(" + y + ") { " + n.kids[0].take(e, true, depth+1) + " }"
	case 14:
		s += "for _, " + e + " := range " + y + ".Values() { " + n.kids[0].take(e, true, depth+1) + " }"
	case 13:
		s += "for _, " + e + " := range " + y + ".Keys() { { " + n.kids[0].take(e, true, depth+1) + " }; v" + e + ", _ := " + y + ".Get(" + e + "); { " + n.kids[1].take("v"+e, true, depth+1) + " } }"
	}
	return s + " }"
}

// leaves lists what take gives for a value made by build.
func (n *node) leaves() []*Val {
	if n.l.goT != nil {
		return []*Val{n.v}
	}
	var r []*Val
	switch n.l.code {
	case 15:
		r = append(r, mkInt(2))
	case 14, 13:
		r = append(r, mkInt(1))
	}
	for _, k := range n.kids {
		r = append(r, k.leaves()...)
	}
	return r
}

// op is one call the writer should make.
type tapeOp struct {
	kind int64
	name string
	t    int64
	t2   int64
	n    int64
	v    *Val
	opt  int // length of an optional field that starts here
}

func wireCode(c int64) int64 {
	if c == 18 {
		return 11
	}
	return c
}

func (n *node) ops() []tapeOp {
	switch {
	case n.l.goT != nil:
		return []tapeOp{{kind: 20 + n.l.code, v: n.v}}
	case n.l.code == 12:
		r := []tapeOp{{kind: 3, name: pub(n.l.tr.f["name"].(string))}}
		for _, k := range n.kids {
			b := k.ops()
			o := tapeOp{kind: 5, name: k.name, t: wireCode(k.l.code), n: k.id}
			if k.req == 1 || k.l.code == 18 { // nil bytes are not written
				o.opt = len(b) + 2
			}
			r = append(append(append(r, o), b...), tapeOp{kind: 6})
		}
		return append(r, tapeOp{kind: 7}, tapeOp{kind: 4})
	}
	k := n.kids
	var r []tapeOp
	switch n.l.code {
	case 15:
		r = []tapeOp{{kind: 10, t: wireCode(k[0].l.code), n: 2}}
	case 14:
		r = []tapeOp{{kind: 12, t: wireCode(k[0].l.code), n: 1}}
	case 13:
		r = []tapeOp{{kind: 8, t: wireCode(k[0].l.code), t2: wireCode(k[1].l.code), n: 1}}
	}
	for _, x := range k {
		r = append(r, x.ops()...)
	}
	return append(r, tapeOp{kind: r[0].kind + 1})
}

func (l *lab) sameLeaf(st *State, got, want *Val) bool {
	if unwrapNil(st, got) {
		return false
	}
	g := st.facts.simp(unwrapAny(got))
	if g == want {
		return true
	}
	if _, ok := want.typ.(*types.Slice); ok {
		if nilOf := mkEq(want, mkNil(want.typ)); st.facts.eval(nilOf) > 0 {
			return g.isNil()
		}
		if g.typ == nil || !types.Identical(g.typ.Underlying(), want.typ) {
			return false
		}
		return st.facts.eval(mkEq(l.in.conv(st, g, tString), l.in.conv(st, want, tString))) > 0
	}
	return g.typ != nil && types.Identical(g.typ, want.typ) && sameVal(st.facts, g, want)
}

func unwrapNil(st *State, v *Val) bool { return v == nil || st.facts.simp(v).op != OIface }

func (c *Ctx) genRound(g *cprog, name string, mk func(d *idl) *cobj, def bool) {
	pn := fmt.Sprintf("prog%d", len(c.prog.Gen))
	d := newIDL(pn)
	t := mk(d)
	fs := []*cobj{idlField(1, "plain", t, 2, nil), idlField(2, "needed", t, 0, nil), idlField(4, "maybe_set", t, 1, nil)}
	if def {
		for _, f := range fs {
			f.f["value"] = idlDefault(t)
		}
	}
	outer := d.structure("Outer", false, fs...)
	files, e := d.emit(g)
	if e != nil {
		genSkip(c, name, e)
		return
	}
	pkg, _ := splitGo(files)
	m := &maker{}
	n := m.build(outer, false)
	driver := "func vRound(mode, wfail, rfail, unknown int, " + strings.Join(m.decl, ", ") + ") (flat, out []interface{}, werr, rerr, whit, rhit bool, left int) {\n" +
		"x := " + n.expr + "\nt := &vTape{fail: wfail, mode: mode}\nif err := x.Write(t); err != nil { werr = true }\nwhit = t.fail < 0\nflat = vFlat(t.ops)\nif werr || wfail >= 0 { return }\n" +
		"if unknown > 0 { t.ops = append([]*vOp{t.ops[0], {kind: 5, name: \"unheard_of\", t: 12, n: 99}, {kind: 3}, {kind: 5, t: 8, n: 1}, {kind: 28, v: int32(5)}, {kind: 6}, {kind: 7}, {kind: 4}, {kind: 6}}, t.ops[1:]...) }\n" +
		"t.fail = rfail\ny := NewOuter()\nif err := y.Read(t); err != nil { rerr = true }\nrhit = t.fail < 0\nleft = len(t.ops) - t.at\n" + n.take("y", false, 0) + "\nreturn\n}\n" +
		"func vDefault() (out []interface{}, bad bool) {\ny := NewOuter()\n" + n.take("y", false, 0) + "\nt := &vTape{fail: -1}\nif err := y.Write(t); err != nil { bad = true }\nz := NewOuter()\nif err := z.Read(t); err != nil { bad = true }\n{ y := z; " + n.take("y", false, 0) + " }\nreturn\n}\n"
	sp := c.genPkg(pn, name, pkg, driver)
	if sp == nil {
		return
	}
	l := c.collLab("round trip")
	st := l.in.start()
	for _, p := range m.params {
		if isSlice(p.typ) {
			st.facts.refine(mkLen(p), Range{big.NewInt(0), maxLen})
			if def { // a field without bytes is a field that was not set
				st.facts.assume(mkEq(p, mkNil(p.typ)), false)
			}
		}
	}
	run := func(key string, mode, wfail, rfail, unk int64) []Outcome {
		args := []*Val{mkInt(mode), mkInt(wfail), mkInt(rfail), mkInt(unk)}
		return l.run(key, sp.Func("vRound"), st, append(args, m.params...)...)
	}
	total := 0
	want := n.leaves()
	spec := n.ops()
	for _, v := range []struct {
		what      string
		mode, unk int64
	}{{"", 0, 0}, {" (named fields)", 1, 0}, {" (fields by name only)", 2, 0}, {" (with a field the reader does not know)", 0, 1}} {
		key := name + v.what
		for _, o := range run(key, v.mode, -1, -1, v.unk) {
			if !l.alive(key, o) {
				break
			}
			r := o.rets
			if !c.ob("round trip", key, o.st.facts.eval(r[2]) < 0, "writing reports an error: %s", c.descOutcome(o)) {
				break
			}
			flat, ok := l.items(o.st, r[0])
			if !ok {
				c.undecided("round trip", key, "what is written has no known length")
				break
			}
			if len(flat)/6 > total {
				total = len(flat) / 6
			}
			if v.what == "" {
				if why := l.matchOps(o.st, flat, spec); !c.ob("layout", name, why == "", "%s on the path %s", why, c.descOutcome(o)) {
					break
				}
			}
			if !c.ob("round trip", key, o.st.facts.eval(r[3]) < 0, "reading what was written reports an error: %s", c.descOutcome(o)) {
				break
			}
			if left, ok := o.st.facts.simpConst(r[6]).i64(); !c.ob("round trip", key, ok && left == 0, "reading leaves %d operations: %s", left, c.descOutcome(o)) {
				break
			}
			out, ok := l.items(o.st, r[1])
			good := ok && len(out) == len(want)
			bad := ""
			for i := 0; good && i < len(out); i++ {
				if !l.sameLeaf(o.st, out[i], want[i]) {
					good, bad = false, fmt.Sprintf("part %d is %v instead of %v", i, o.st.facts.simp(out[i]), want[i])
				}
			}
			if ok && len(out) != len(want) {
				bad = fmt.Sprintf("%d parts instead of %d", len(out), len(want))
			}
			if !c.ob("round trip", key, good, "what is read differs from what was written: %s on the path %s", bad, c.descOutcome(o)) {
				break
			}
		}
	}
	if def {
		c.genDefaults(l, sp, name, t, st)
		return
	}
	for k := 0; k < total; k++ {
		key := fmt.Sprintf("%s, operation %d", name, k)
		for _, o := range run(key, 0, int64(k), -1, 0) {
			f := o.st.facts
			if o.kind != XReturn || !(f.eval(o.rets[4]) < 0 || f.eval(o.rets[2]) > 0) {
				c.ob("errors", name, false, "the failure of write operation %d is not reported: %s", k, c.descOutcome(o))
				return
			}
			c.ob("errors", name, true, "")
		}
		for _, o := range run(key, 0, -1, int64(k), 0) {
			f := o.st.facts
			if o.kind != XReturn || !(f.eval(o.rets[5]) < 0 || f.eval(o.rets[3]) > 0) {
				c.ob("errors", name, false, "the failure of read operation %d is not reported: %s", k, c.descOutcome(o))
				return
			}
			c.ob("errors", name, true, "")
		}
	}
}

// genDefaults decides that a new struct has the values the IDL gives and keeps them.
func (c *Ctx) genDefaults(l *lab, sp *ssa.Package, name string, t *cobj, st *State) {
	var want []*Val
	one := idlDefaultLeaves(t, idlDefault(t))
	for i := 0; i < 6; i++ {
		want = append(want, one...)
	}
	key := name + ", defaults"
	for _, o := range l.run(key, sp.Func("vDefault"), st) {
		if !l.alive(key, o) {
			return
		}
		if !c.ob("defaults", key, o.st.facts.eval(o.rets[1]) < 0, "writing and reading a new struct fails: %s", c.descOutcome(o)) {
			return
		}
		out, ok := l.items(o.st, o.rets[0])
		if !c.ob("defaults", key, ok && len(out) == len(want), "%d parts instead of %d", len(out), len(want)) {
			return
		}
		for i := range out {
			g := o.st.facts.simp(unwrapAny(out[i]))
			good := false
			if isSlice(g.typ) {
				good = o.st.facts.eval(mkEq(l.in.conv(o.st, g, tString), want[i])) > 0
			} else {
				good = o.st.facts.eval(mkEq(g, want[i])) > 0
			}
			if !c.ob("defaults", key, good, "part %d of a new struct is %v instead of %v", i, g, want[i]) {
				return
			}
		}
	}
}

func idlDefaultLeaves(t, v *cobj) []*Val {
	l := idlOf(t)
	var r []*Val
	switch {
	case l.code == 12:
		return []*Val{mkIntT(types.Typ[types.Int32], 7)}
	case l.code == 15 || l.code == 14:
		e := l.tr.f["elem_type"].(*cobj)
		vs := v.f["list"].(*cvec).v
		r = append(r, mkInt(int64(len(vs))))
		for _, x := range vs {
			r = append(r, idlDefaultLeaves(e, x.(*cobj))...)
		}
		return r
	case l.code == 13:
		vs := v.f["map"].(*cmap).v
		r = append(r, mkInt(int64(len(vs))))
		for _, x := range vs {
			r = append(r, idlDefaultLeaves(l.tr.f["key_type"].(*cobj), x.first.(*cobj))...)
			r = append(r, idlDefaultLeaves(l.tr.f["val_type"].(*cobj), x.second.(*cobj))...)
		}
		return r
	case l.code == 11 || l.code == 18:
		return []*Val{mkStr(v.f["string"].(string))}
	case l.code == 4:
		if n, ok := v.f["integer"].(int64); ok && v.f["double"] == nil {
			return []*Val{mkConst(constant.MakeFloat64(float64(n)), types.Typ[types.Float64])}
		}
		return []*Val{mkConst(constant.MakeFloat64(v.f["double"].(float64)), types.Typ[types.Float64])}
	case l.code == 2:
		return []*Val{mkBool(v.f["integer"].(int64) != 0)}
	}
	return []*Val{mkIntT(l.goT, v.f["integer"].(int64))}
}

// matchOps compares the operations of a tape with the ones expected.
func (l *lab) matchOps(st *State, flat []*Val, spec []tapeOp) string {
	at := 0
	num := func(v *Val) int64 {
		n, ok := st.facts.simpConst(unwrapAny(v)).i64()
		if !ok {
			return -12345
		}
		return n
	}
	for i := 0; i < len(spec); i++ {
		s := spec[i]
		bad := ""
		if at+6 > len(flat) {
			bad = "missing"
		} else {
			o := flat[at : at+6]
			switch {
			case num(o[0]) != s.kind:
				bad = fmt.Sprintf("kind %d", num(o[0]))
			case s.kind == 5 && st.facts.eval(mkEq(unwrapAny(o[1]), mkStr(s.name))) <= 0:
				bad = fmt.Sprintf("name %v", unwrapAny(o[1]))
			case s.kind != 1 && s.kind != 3 && (num(o[2]) != s.t || num(o[3]) != s.t2 || num(o[4]) != s.n):
				bad = fmt.Sprintf("type %d, type %d, number %d", num(o[2]), num(o[3]), num(o[4]))
			case s.v != nil && !l.sameLeaf(st, o[5], s.v):
				bad = fmt.Sprintf("value %v", st.facts.simp(o[5]))
			}
		}
		if bad != "" {
			if s.opt > 0 {
				i += s.opt - 1
				continue
			}
			return fmt.Sprintf("operation %d is %s instead of %s", at/6, bad, s)
		}
		at += 6
	}
	if at != len(flat) {
		return fmt.Sprintf("%d operations more than expected", (len(flat)-at)/6)
	}
	return ""
}

func (s tapeOp) String() string {
	return fmt.Sprintf("{kind %d name %q type %d type %d number %d value %v}", s.kind, s.name, s.t, s.t2, s.n, s.v)
}

func init() {
	checks["C32"] = &check{run: runC32, min: 1,
		rule: "the emitted Write and Read, over a protocol that gives back call for call what was written, write exactly the calls the IDL's types prescribe and read every value back, from symbolic values on every path; every failing call is reported; a new struct has the IDL's defaults",
		expl: "for each type a program with a default, a required and an optional field of it, with and without defaults: round trip (ids; names; names only; an unknown struct field in front), layout, errors (per operation of writer and reader), defaults",
		asm:  []string{"the parse tree classes behave as in Apache Thrift's compiler (their stub is in cppstub)", "lists of two, sets and maps of one element", "nil bytes are a field that is not set", "programs C31 rejects or whose generation is not followed are notes"}}
}

func runC32(c *Ctx) {
	g, err := loadGenerator(c.prog.repo, c.verif)
	if err != nil {
		genUnread(c, err)
		return
	}
	c.ob("anchor", "t_go_generator.cc", true, "")
	for _, t := range idlTypes() {
		c.genRound(g, t.name, t.make, false)
		c.genRound(g, t.name+" with a default", t.make, true)
	}
}
