package main

// C22: coercion of Go values to thrift types.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"
)

func init() {
	checks["C22"] = &check{run: runC22, min: 200,
		rule: "for every thrift type and every kind of Go value, every path through CoerceData returns, and what it returns with true has the Go type of the thrift type and is the value itself, the Go conversion of the number (a boolean counts as 1 or 0, a Numeric as the number it was made from), the number the text parses to, whether the number is not zero or the text neither empty nor 0 nor false, or the decimal, boolean or shortest floating-point text; text that does not parse and values of another kind are refused",
		expl: "Path-sensitive abstract interpretation of TType.CoerceData over a symbolic value of each dynamic type, with strconv as uninterpreted functions of the text; one further run takes a value of unknown dynamic type.",
		asm:  []string{"strconv parses and prints numbers as documented", "conversions of floating-point numbers to integers are compared as Go conversions; numbers out of the integer's range are not constrained further"},
	}
}

var collTypes = []struct {
	name string
	code int64
	goT  types.Type
}{
	{"BOOL", 2, tBool}, {"BYTE", 3, tByte}, {"DOUBLE", 4, types.Typ[types.Float64]}, {"I16", 6, types.Typ[types.Int16]}, {"I32", 8, types.Typ[types.Int32]}, {"I64", 10, types.Typ[types.Int64]},
	{"STRING", 11, tString}, {"UTF8", 16, tString}, {"UTF16", 17, tString}, {"BINARY", 18, types.NewSlice(tByte)},
	{"STRUCT", 12, nil}, {"MAP", 13, nil}, {"SET", 14, nil}, {"LIST", 15, nil},
}

var tAny = types.NewInterfaceType(nil, nil)

// std models the library functions over numbers, text and types.
func collStd(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	base10 := func(v *Val) bool { n, ok := v.i64(); return ok && n == 10 }
	text := func(v *Val) *Val { return in.conv(st, v, tString) }
	parse := func(kind string, t types.Type, s *Val) ([]modelOut, bool) {
		okv := mk(OCall, tBool, "parses:"+kind, s)
		if c, isC := s.strConst(); isC {
			if kind == "int64" {
				n, err := strconv.ParseInt(c, 10, 64)
				if err == nil {
					return one(mkIntT(t, n), mkNil(tError))
				}
				return one(zeroVal(t), newErr(st, tError, "not-a-number"))
			}
			f, err := strconv.ParseFloat(c, 64)
			if err == nil && !math.IsNaN(f) && !math.IsInf(f, 0) {
				return one(mkConst(constant.MakeFloat64(f), t), mkNil(tError))
			}
			if err != nil {
				return one(zeroVal(t), newErr(st, tError, "not-a-number"))
			}
		}
		var r []modelOut
		bad := st.clone()
		if st.facts.assume(okv, true) {
			var v *Val
			if isFloat(t) {
				v = mk(OCall, t, "parsed:"+kind, s)
			} else {
				v = convert(mk(OCall, types.Typ[types.Int64], "parsed:"+kind, s), t)
			}
			r = append(r, modelOut{st: st, res: []*Val{v, mkNil(tError)}})
		}
		if bad.facts.assume(okv, false) {
			r = append(r, modelOut{st: bad, res: []*Val{mk(OCall, t, "unparsed:"+kind, s), newErr(bad, tError, "not-a-number")}})
		}
		return r, true
	}
	switch ci.name {
	case "strconv.FormatInt", "strconv.FormatUint":
		if base10(ci.args[1]) {
			return one(decTerm(ci.args[0]))
		}
	case "strconv.Itoa":
		return one(decTerm(ci.args[0]))
	case "strconv.FormatBool":
		return boolText(st, ci.args[0])
	case "strconv.AppendInt", "strconv.AppendUint":
		if base10(ci.args[2]) {
			return one(mkSeq(types.NewSlice(tByte), []*Val{in.content(st, ci.args[0]), decTerm(ci.args[1])}, []byte("ss")))
		}
	case "strconv.FormatFloat":
		a := ci.args
		f, ok1 := a[1].i64()
		p, ok2 := a[2].i64()
		b, ok3 := a[3].i64()
		if ok1 && ok2 && ok3 && p == -1 && strings.ContainsRune("egEGf", rune(f)) {
			return one(mk(OCall, tString, fmt.Sprintf("shortest%d", b), a[0]))
		}
	case "fmt.Sprint", "fmt.Sprintf":
		if r := in.sprintCalls(st, ci); r != nil {
			return r, true
		}
	case "strconv.Atoi":
		return parse("int64", tInt, text(ci.args[0]))
	case "strconv.ParseInt":
		if b, ok := ci.args[2].i64(); ok && base10(ci.args[1]) && (b == 64 || b == 0) {
			return parse("int64", types.Typ[types.Int64], text(ci.args[0]))
		}
	case "strconv.ParseFloat":
		if b, ok := ci.args[1].i64(); ok && b == 64 {
			return parse("float64", types.Typ[types.Float64], text(ci.args[0]))
		}
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		a, b := text(ci.args[0]), text(ci.args[1])
		return compareModel(in, st, a, b)
	case "reflect.TypeOf":
		v := st.facts.simp(ci.args[0])
		if v.isNil() {
			return one(mkNil(ci.sig.Results().At(0).Type()))
		}
		t := st.facts.dyn[v]
		if v.op == OIface {
			t = v.args[0].typ
		}
		if t != nil {
			r := mk(OCall, ci.sig.Results().At(0).Type(), "rtype:"+types.TypeString(t, nil))
			st.facts.isnil[r] = false
			rtypes[r] = t
			return one(r)
		}
	case "math.IsNaN":
		return one(mkNot(mkEq(ci.args[0], ci.args[0])))
	case "math.IsInf":
		if s, ok := ci.args[1].i64(); ok {
			x := ci.args[0]
			inf := ltAny(mkMaxFloat(x.typ), x)
			ninf := ltAny(x, mkMinFloat(x.typ))
			if s > 0 {
				return one(inf)
			}
			if s < 0 {
				return one(ninf)
			}
		}
	}
	if ci.iface && ci.recv != nil {
		if t := rtypes[ci.recv]; t != nil && strings.HasSuffix(ci.name, ".Comparable") {
			return one(mkBool(types.Comparable(t)))
		}
	}
	return nil, false
}

var rtypes = map[*Val]types.Type{}

func boolText(st *State, b *Val) ([]modelOut, bool) {
	var r []modelOut
	no := st.clone()
	if st.facts.assume(b, true) {
		r = append(r, modelOut{st: st, res: []*Val{mkStr("true")}})
	}
	if no.facts.assume(b, false) {
		r = append(r, modelOut{st: no, res: []*Val{mkStr("false")}})
	}
	return r, true
}

// compareModel is three-way comparison of two texts.
func compareModel(in *Interp, st *State, a, b *Val) ([]modelOut, bool) {
	var r []modelOut
	for i, c := range []*Val{mkEq(a, b), ltAny(a, b), ltAny(b, a)} {
		s := st.clone()
		if s.facts.assume(c, true) && (i == 0 || s.facts.assume(mkEq(a, b), false)) && (i != 1 || s.facts.assume(ltAny(b, a), false)) && (i != 2 || s.facts.assume(ltAny(a, b), false)) {
			r = append(r, modelOut{st: s, res: []*Val{mkInt([]int64{0, -1, 1}[i])}})
		}
	}
	return r, true
}

func (c *Ctx) collLab(rule string) *lab {
	return c.newLab(rule, Config{Model: collStd, Unroll: 64, Recur: 5, PossiblePanics: true, Globals: true, Coll: true, RunGo: true, MaxSteps: 40_000_000, MaxForks: 6000, MaxDepth: 60})
}

// alive reports a path that does not end in a return, a goroutine that
// panicked or one that is left waiting.
func (l *lab) alive(key string, o Outcome) bool {
	if !l.c.ob(l.rule, key, o.kind == XReturn, "%s", l.c.descOutcome(o)) {
		return false
	}
	for _, e := range o.st.trace.list() {
		if e.kind == EvMark && e.name == "goend" && e.method == "panic" {
			return l.c.ob(l.rule, key, false, "a goroutine it starts panics: %s", l.c.descOutcome(o))
		}
	}
	return l.c.ob(l.rule, key, !stuck(o.st), "leaves a goroutine waiting to send: %s", l.c.descOutcome(o))
}

type coercion struct {
	name string
	st   *State
	val  *Val // the dynamic value
	num  *Val // the number it stands for
	txt  *Val // the text it stands for
	yes  *Val // whether it is true, for a byte slice
	bin  bool
	nan  bool
}

func runC22(c *Ctx) {
	l := c.collLab("coerce")
	tt := c.prog.Type("TType")
	if !c.need("type TType", tt != nil) {
		return
	}
	f := c.prog.MethodByName(tt, "CoerceData")
	if !c.need("method TType.CoerceData", f != nil) {
		return
	}
	base := l.in.start()
	var kinds []coercion
	kinds = append(kinds, coercion{name: "bool", st: base, val: atom(tBool, "b")})
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64} {
		v := atom(types.Typ[k], "x")
		kinds = append(kinds, coercion{name: types.Typ[k].Name(), st: base, val: v, num: v})
	}
	s := atom(tString, "s")
	kinds = append(kinds, coercion{name: "string", st: base, val: s, txt: s})
	bs := seqAtom(types.NewSlice(tByte), "bytes", atom(tInt, "n"))
	stb := base.clone()
	stb.facts.assume(mkLtInt(atom(tInt, "n"), mkInt(0)), false)
	kinds = append(kinds, coercion{name: "[]byte", st: stb, val: bs, bin: true})
	kinds = append(kinds, coercion{name: "TType", st: base, val: mkIntT(tt, 8), txt: mkStr("I32")})
	mk1 := func(name, fn string, args ...*Val) (Outcome, bool) {
		return l.one(fn, l.fn(fn, base, args...))
	}
	i64 := atom(types.Typ[types.Int64], "x")
	if o, ok := mk1("Numeric", "NewNumericFromI64", i64); ok {
		kinds = append(kinds, coercion{name: "Numeric", st: o.st, val: unwrapAny(o.rets[0]), num: i64, txt: decTerm(i64)})
	}
	i32 := atom(types.Typ[types.Int32], "x")
	if o, ok := mk1("Numeric", "NewNumericFromI32", i32); ok {
		kinds = append(kinds, coercion{name: "Numeric32", st: o.st, val: unwrapAny(o.rets[0]), num: i32, txt: decTerm(i32)})
	}
	for _, fn := range []string{"NewText", "NewTextPtr"} {
		if o, ok := l.one(fn, l.run(fn, c.prog.User.Func(fn), base, s)); ok {
			kinds = append(kinds, coercion{name: fn[3:], st: o.st, val: unwrapAny(o.rets[0]), txt: s})
		}
	}
	x0 := atom(tByte, "b0")
	for _, k := range []struct {
		name string
		b    []*Val
		num  *Val
	}{{"no bytes", nil, mkInt(0)}, {"one byte", []*Val{x0}, x0}, {"two bytes", []*Val{x0, atom(tByte, "b1")}, mkInt(1)}} {
		kinds = append(kinds, coercion{name: k.name, st: base, val: mkSeq(types.NewSlice(tByte), k.b, []byte(strings.Repeat("e", len(k.b)))), yes: mkNot(mkEq(k.num, zeroVal(k.num.typ)))})
	}
	name := atom(tString, "name")
	cons := map[string]Outcome{}
	if o, ok := mk1("TStruct", "NewTStructEmpty", name); ok {
		cons["STRUCT"] = o
	}
	if o, ok := mk1("TMap", "NewTMapDefault"); ok {
		cons["MAP"] = o
	}
	if o, ok := mk1("TSet", "NewTSetDefault"); ok {
		cons["SET"] = o
	}
	if o, ok := mk1("TList", "NewTListDefault"); ok {
		cons["LIST"] = o
	}
	for _, k := range []string{"STRUCT", "MAP", "SET", "LIST"} {
		if o, ok := cons[k]; ok {
			kinds = append(kinds, coercion{name: k, st: o.st, val: unwrapAny(o.rets[0])})
		}
	}
	for _, ty := range collTypes {
		p := mkIntT(tt, ty.code)
		for _, k := range kinds {
			key := ty.name + " of " + k.name
			for _, o := range l.run(key, f, k.st, p, mk(OIface, tAny, "", k.val)) {
				if l.alive(key, o) {
					c.coerced(l, key, ty.name, ty.goT, k, o)
				}
			}
		}
		// a value nothing is known about
		key := ty.name + " of any value"
		st := base.clone()
		u := atom(tAny, "data")
		st.facts.isnil[u] = false
		for _, o := range l.run(key, f, st, p, u) {
			if l.alive(key, o) {
				c.coercedType(l, key, ty.name, ty.goT, o)
			}
		}
		// nothing
		key = ty.name + " of nil"
		for _, o := range l.run(key, f, base, p, mkNil(tAny)) {
			if !l.alive(key, o) {
				continue
			}
			r, okv := o.st.facts.simp(o.rets[0]), o.st.facts.eval(o.rets[1])
			switch {
			case ty.name == "BINARY":
				empty := r.isNil() || r.op == OIface && (r.args[0].isNil() || o.st.facts.eval(mkEq(mkLen(r.args[0]), mkInt(0))) > 0)
				c.ob(l.rule, key, okv > 0 && empty, "gives %v, %v", r, o.rets[1])
			case ty.goT != nil:
				c.ob(l.rule, key, okv > 0 && r.op == OIface && types.Identical(r.args[0].typ, ty.goT) && (r.args[0] == zeroVal(ty.goT) || o.st.facts.eval(mkEq(r.args[0], zeroVal(ty.goT))) > 0), "gives %v, %v where the zero value is due", r, o.rets[1])
			default:
				if okv < 0 {
					c.ob(l.rule, key, false, "refused")
					continue
				}
				if !c.coercedType(l, key, ty.name, ty.goT, o) {
					continue
				}
				for _, q := range l.meth(o.st, r, "Len") {
					c.ob(l.rule, key, q.kind == XReturn && q.st.facts.eval(mkEq(q.rets[0], mkInt(0))) > 0, "the value is not empty: %s", c.descOutcome(q))
				}
			}
		}
	}
}

func unwrapAny(v *Val) *Val {
	for v.op == OIface {
		v = v.args[0]
	}
	return v
}

// coercedType checks the Go type of an accepted value; it is false when there is none.
func (c *Ctx) coercedType(l *lab, key, tn string, gt types.Type, o Outcome) bool {
	okv := o.st.facts.eval(o.rets[1])
	if okv < 0 {
		c.ob(l.rule, key, true, "refused")
		return false
	}
	r := o.st.facts.simp(o.rets[0])
	good := false
	switch {
	case gt != nil:
		good = r.op == OIface && types.Identical(r.args[0].typ, gt) || r.op != OIface && o.st.facts.dyn[r] != nil && types.Identical(o.st.facts.dyn[r], gt)
	default:
		it := c.prog.Type("T" + tn[:1] + strings.ToLower(tn[1:]))
		good = it != nil && (r.op == OIface && types.Implements(r.args[0].typ, it.Underlying().(*types.Interface)) || r.op != OIface && o.st.facts.truth[implKey(r, it)])
		if !good && r.op != OIface && !r.isNil() {
			good = l.in.hasType(o.st, r, it) > 0
		}
	}
	return c.ob(l.rule, key, good, "accepts it as %v of type %v; %s", r, r.typ, c.descOutcome(o))
}

func (c *Ctx) coerced(l *lab, key, tn string, gt types.Type, k coercion, o Outcome) {
	okv := o.st.facts.eval(o.rets[1])
	if !c.ob(l.rule, key, okv != 0, "whether it is accepted is undecided: %v", o.rets[1]) {
		return
	}
	want := func(cond bool) bool {
		return c.ob(l.rule, key, (okv > 0) == cond, "accepted: %v, must be %v; %s", okv > 0, cond, c.descOutcome(o))
	}
	if gt == nil {
		if want(k.name == tn) && okv > 0 {
			c.ob(l.rule, key, unwrapAny(o.rets[0]) == k.val, "gives another value: %v", o.rets[0])
		}
		return
	}
	if okv > 0 && !c.coercedType(l, key, tn, gt, o) {
		return
	}
	var r *Val
	if okv > 0 {
		r = unwrapAny(o.st.facts.simp(o.rets[0]))
	}
	same := func(x *Val) {
		if !want(true) {
			return
		}
		c.ob(l.rule, key, equalVal(o.st, r, x), "gives %v, must be %v; %s", r, x, c.descOutcome(o))
	}
	truth := func(x *Val) {
		if !want(true) {
			return
		}
		a, b := o.st.facts.eval(r), o.st.facts.eval(x)
		c.ob(l.rule, key, r == x || a == b && a != 0, "gives %v, must be %v; %s", r, x, c.descOutcome(o))
	}
	isBoolT := k.name == "bool"
	switch tn {
	case "BOOL":
		switch {
		case isBoolT:
			truth(k.val)
		case k.yes != nil:
			truth(k.yes)
		case k.num != nil:
			truth(mkNot(mkEq(k.num, zeroVal(k.num.typ))))
		case k.txt != nil:
			truth(mkNot(orVal(orVal(mkEq(k.txt, mkStr("")), mkEq(k.txt, mkStr("0")), o.st), mkEq(k.txt, mkStr("false")), o.st)))
		}
	case "BYTE", "I16", "I32", "I64", "DOUBLE":
		switch {
		case isBoolT:
			n := int64(0)
			switch o.st.facts.eval(k.val) {
			case 1:
				n = 1
			case 0:
				c.ob(l.rule, key, false, "does not depend on the boolean")
				return
			}
			if tn == "DOUBLE" {
				same(mkConst(constant.MakeFloat64(float64(n)), gt))
			} else {
				same(mkIntT(gt, n))
			}
		case k.num != nil && isFloat(k.num.typ) && tn != "DOUBLE":
			if want(true) {
				c.ob(l.rule, key, truncOf(l.in, o.st, r, k.num, gt), "gives %v, must be the number without its fraction", r)
			}
		case k.num != nil:
			same(l.in.conv(o.st, k.num, gt))
		case k.txt != nil:
			kind, pt := "int64", types.Type(types.Typ[types.Int64])
			if tn == "DOUBLE" {
				kind, pt = "float64", gt
			}
			if _, isC := k.txt.strConst(); isC {
				want(false)
				return
			}
			switch o.st.facts.eval(mk(OCall, tBool, "parses:"+kind, k.txt)) {
			case 1:
				same(l.in.conv(o.st, mk(OCall, pt, "parsed:"+kind, k.txt), gt))
			case -1:
				want(false)
			default:
				c.ob(l.rule, key, false, "does not depend on whether the text is a number: %s", c.descOutcome(o))
			}
		}
	default: // text and binary
		var t *Val
		switch {
		case isBoolT:
			switch o.st.facts.eval(k.val) {
			case 1:
				t = mkStr("true")
			case -1:
				t = mkStr("false")
			default:
				c.ob(l.rule, key, false, "does not depend on the boolean")
				return
			}
		case k.bin:
			t = l.in.conv(o.st, k.val, tString)
		case k.txt != nil:
			t = k.txt
		case k.num != nil && isFloat(k.num.typ):
			n := 64
			if k.name == "float32" {
				n = 32
			}
			t = mk(OCall, tString, fmt.Sprintf("shortest%d", n), l.in.conv(o.st, k.num, types.Typ[types.Float64]))
		case k.num != nil:
			t = decTerm(k.num)
		default:
			return
		}
		if tn == "BINARY" && k.bin {
			if want(true) {
				c.ob(l.rule, key, unwrapAny(o.rets[0]) == k.val || o.st.facts.simp(in2(l, o, r)) == o.st.facts.simp(in2(l, o, k.val)), "gives %v, must be the same bytes", r)
			}
			return
		}
		if want(true) {
			g := l.in.conv(o.st, r, tString)
			c.ob(l.rule, key, equalVal(o.st, g, t), "gives %v, must be %v; %s", g, t, c.descOutcome(o))
		}
	}
}

func in2(l *lab, o Outcome, v *Val) *Val {
	return mkSeq(v.typ, []*Val{l.in.content(o.st, v)}, []byte{'s'})
}

func orVal(a, b *Val, st *State) *Val {
	switch {
	case st.facts.eval(a) > 0 || st.facts.eval(b) > 0:
		return mkBool(true)
	case st.facts.eval(a) < 0:
		return b
	case st.facts.eval(b) < 0:
		return a
	}
	return mkNot(mk(OBoolAnd, tBool, "", mkNot(a), mkNot(b)))
}

func equalVal(st *State, a, b *Val) bool {
	if a == b {
		return true
	}
	a, b = st.facts.simp(a), st.facts.simp(b)
	return a == b || st.facts.eval(mkEq(a, b)) > 0
}

// truncOf: r is x converted to an integer, through integers not narrower than the target.
func truncOf(in *Interp, st *State, r, x *Val, t types.Type) bool {
	if r == in.conv(st, x, t) {
		return true
	}
	for _, k := range []types.BasicKind{types.Int, types.Int64, types.Int32, types.Int16, types.Int8, types.Uint, types.Uint64, types.Uint32, types.Uint16} {
		if m := types.Typ[k]; width(m) >= width(t) && r == in.conv(st, in.conv(st, x, m), t) {
			return true
		}
	}
	return false
}

func mkMaxFloat(t types.Type) *Val { return mkConst(constant.MakeFloat64(math.MaxFloat64), t) }
func mkMinFloat(t types.Type) *Val { return mkConst(constant.MakeFloat64(-math.MaxFloat64), t) }
