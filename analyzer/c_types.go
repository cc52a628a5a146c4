package main

// C28: numbers and thrift types.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

func init() {
	checks["C28"] = &check{run: runC28, min: 300,
		rule: "a Numeric made from a number gives that number, in Go's conversion, by each of its views and its decimal or shortest text; one made from text gives the text and the number the text parses to, and the texts of the infinities and NaN give those; every code of a thrift type is in exactly the classes of that type, has a name of its own, and its code on the wire is its own except that binary travels as a string; a type equals and is ordered like its code given as any Go number; TypeFromValue gives a type that accepts the value unchanged in kind",
		expl: "Path-sensitive abstract interpretation of the constructors and views over a symbolic number or text, and of the classification methods for each of the 256 codes.",
		asm:  []string{"strconv parses and prints numbers as documented"},
	}
}

func runC28(c *Ctx) {
	l := c.collLab("types")
	tt := c.prog.Type("TType")
	if !c.need("type TType and the public interface of numbers", tt != nil && c.prog.User != nil) {
		return
	}
	base := l.in.start()
	eq := func(st *State, v, w *Val) bool {
		v, w = st.facts.simp(v), st.facts.simp(w)
		return v == w || st.facts.eval(mkEq(v, w)) > 0
	}
	views := []struct {
		fn string
		t  types.Type
	}{{"NumInt64", types.Typ[types.Int64]}, {"NumInt32", types.Typ[types.Int32]}, {"NumInt16", types.Typ[types.Int16]}, {"NumByte", tByte}, {"NumInt", tInt}, {"NumFloat64", types.Typ[types.Float64]}, {"NumFloat32", types.Typ[types.Float32]}}
	f64 := types.Type(types.Typ[types.Float64])
	infinite := func(key, text string, st *State, n *Val) {
		for _, q := range l.user(key, "NumString", st, n) {
			if l.alive(key, q) {
				c.ob(l.rule, key, eq(q.st, q.rets[0], mkStr(text)), "its text is %v", q.rets[0])
			}
		}
		for _, v := range views[len(views)-2:] {
			for _, q := range l.user(key, v.fn, st, n) {
				if !l.alive(key, q) {
					continue
				}
				r := q.st.facts.simp(q.rets[0])
				for r.op == OConv {
					r = r.args[0]
				}
				good := false
				switch text {
				case "NaN":
					good = r.op == OCall && r.aux == "math.NaN" || q.st.facts.eval(mkEq(r, r)) < 0
				case "Infinity":
					good = infSign(r) > 0 || q.st.facts.eval(ltAny(mkMaxFloat(r.typ), r)) > 0
				default:
					good = infSign(r) < 0 || q.st.facts.eval(ltAny(r, mkMinFloat(r.typ))) > 0
				}
				c.ob(l.rule, key, good, "%s gives %v", v.fn, r)
			}
		}
	}
	number := func(key string, st *State, n *Val, i int64, f float64, text string) {
		for _, v := range views {
			for _, q := range l.user(key, v.fn, st, n) {
				if l.alive(key, q) {
					want := l.in.conv(q.st, mkIntT(types.Typ[types.Int64], i), v.t)
					if isFloat(v.t) {
						want = l.in.conv(q.st, mkConst(constant.MakeFloat64(f), f64), v.t)
					}
					c.ob(l.rule, key, eq(q.st, q.rets[0], want), "%s gives %v, must be %v", v.fn, q.rets[0], want)
				}
			}
		}
		if text == "?" {
			return
		}
		for _, q := range l.user(key, "NumString", st, n) {
			if l.alive(key, q) {
				c.ob(l.rule, key, eq(q.st, q.rets[0], mkStr(text)), "its text is %v", q.rets[0])
			}
		}
	}
	for i, text := range []string{"Infinity", "-Infinity", "NaN", "", ""} {
		key := []string{"INFINITY", "NEGATIVE_INFINITY", "NAN", "ZERO", "NUMERIC_NULL"}[i]
		for _, o := range l.user(key, "Ready", base, mkInt(int64(i))) {
			switch {
			case !l.alive(key, o):
			case text != "":
				infinite(key, text, o.st, o.rets[0])
			case i == 3:
				number(key, o.st, o.rets[0], 0, 0, "0")
			default:
				number(key, o.st, o.rets[0], 0, 0, "?")
			}
		}
	}
	for _, o := range l.fn("NewNullNumeric", base) {
		if l.alive("NewNullNumeric", o) {
			number("NewNullNumeric", o.st, o.rets[0], 0, 0, "?")
		}
	}
	// numbers
	for _, ctor := range []struct {
		fn string
		t  types.Type
	}{{"NewNumericFromI64", types.Typ[types.Int64]}, {"NewNumericFromI32", types.Typ[types.Int32]}, {"NewNumericFromDouble", f64}} {
		x := atom(ctor.t, "x")
		for _, o := range l.fn(ctor.fn, base, x) {
			if !l.alive(ctor.fn, o) {
				continue
			}
			special := ""
			if isFloat(ctor.t) {
				st := o.st
				switch {
				case st.facts.eval(mkEq(x, x)) < 0:
					special = "NaN"
				case st.facts.eval(ltAny(mkMaxFloat(x.typ), x)) > 0:
					special = "Infinity"
				case st.facts.eval(ltAny(x, mkMinFloat(x.typ))) > 0:
					special = "-Infinity"
				}
			}
			if special != "" {
				infinite(ctor.fn+" of "+special, special, o.st, o.rets[0])
				continue
			}
			for _, v := range views {
				key := ctor.fn + " " + v.fn
				for _, q := range l.user(key, v.fn, o.st, o.rets[0]) {
					if !l.alive(key, q) {
						continue
					}
					r := q.st.facts.simp(q.rets[0])
					good := eq(q.st, r, l.in.conv(q.st, x, v.t))
					if isFloat(v.t) {
						good = good || eq(q.st, r, l.in.conv(q.st, l.in.conv(q.st, x, f64), v.t))
					} else if isFloat(x.typ) {
						good = truncOf(l.in, q.st, r, x, v.t)
					}
					c.ob(l.rule, key, good, "gives %v of the number %v", r, x)
				}
			}
			key := ctor.fn + " NumString"
			for _, q := range l.user(key, "NumString", o.st, o.rets[0]) {
				if l.alive(key, q) {
					want := decTerm(x)
					if isFloat(x.typ) {
						want = mk(OCall, tString, "shortest64", x)
					}
					c.ob(l.rule, key, eq(q.st, q.rets[0], want), "gives %v, must be %v", q.rets[0], want)
				}
			}
		}
	}
	// text
	for _, ctor := range []string{"NewNumericFromString", "NewNumericFromJSONString"} {
		s := atom(tString, "s")
		st := base.clone()
		st.facts.assume(mkEq(mkLen(s), mkInt(0)), false)
		args := []*Val{s}
		if strings.Contains(ctor, "JSON") {
			args = append(args, mkBool(false))
		}
		for _, o := range l.fn(ctor, st, args...) {
			if !l.alive(ctor, o) {
				continue
			}
			for _, q := range l.user(ctor, "NumString", o.st, o.rets[0]) {
				if l.alive(ctor, q) {
					c.ob(l.rule, ctor+" text", eq(q.st, q.rets[0], s) || q.st.facts.eval(mkEq(s, q.rets[0])) > 0, "the text of the number made from %v is %v; %s", s, q.rets[0], c.descOutcome(q))
				}
			}
			pi := o.st.facts.eval(mk(OCall, tBool, "parses:int64", s))
			pf := o.st.facts.eval(mk(OCall, tBool, "parses:float64", s))
			for _, v := range views {
				key := ctor + " " + v.fn
				for _, q := range l.user(key, v.fn, o.st, o.rets[0]) {
					if !l.alive(key, q) {
						continue
					}
					switch {
					case isFloat(v.t) && pf > 0:
						c.ob(l.rule, key, eq(q.st, q.rets[0], l.in.conv(q.st, mk(OCall, f64, "parsed:float64", s), v.t)), "gives %v", q.rets[0])
					case !isFloat(v.t) && pi > 0:
						c.ob(l.rule, key, eq(q.st, q.rets[0], l.in.conv(q.st, mk(OCall, types.Typ[types.Int64], "parsed:int64", s), v.t)), "gives %v", q.rets[0])
					}
				}
			}
		}
		for _, t := range []string{"Infinity", "-Infinity", "NaN"} {
			args := append([]*Val{mkStr(t)}, args[1:]...)
			for _, o := range l.fn(ctor, base, args...) {
				if l.alive(ctor, o) {
					infinite(ctor+" of "+t, t, o.st, o.rets[0])
				}
			}
		}
		for _, x := range []struct {
			t string
			i int64
		}{{"0", 0}, {"7", 7}, {"-12", -12}, {"10", 10}, {"007", 7}, {"65535", 65535}, {"4294967296", 1 << 32}, {"9007199254740993", 1<<53 + 1}, {"9223372036854775807", 1<<63 - 1}, {"-9223372036854775808", -1 << 63}} {
			args := append([]*Val{mkStr(x.t)}, args[1:]...)
			for _, o := range l.fn(ctor, base, args...) {
				if l.alive(ctor, o) {
					number(ctor+" of "+x.t, o.st, o.rets[0], x.i, float64(x.i), x.t)
				}
			}
		}
	}
	// classes of types
	in := func(codes ...int64) func(n int64) bool {
		return func(n int64) bool {
			for _, c := range codes {
				if c == n {
					return true
				}
			}
			return false
		}
	}
	classes := map[string]func(n int64) bool{
		"IsBaseType":    in(2, 3, 4, 6, 8, 10, 11, 16, 17, 18),
		"IsEmptyType":   in(0, 1),
		"IsEnum":        in(16),
		"IsNumericType": in(2, 3, 4, 6, 8, 10, 16),
		"IsStringType":  in(11, 16, 17, 18),
		"IsContainer":   in(13, 14, 15),
		"IsStruct":      in(12),
		"IsMap":         in(13),
		"IsSet":         in(14),
		"IsList":        in(15),
		"IsInt":         in(3, 6, 8, 10),
	}
	var names []string
	for n := range classes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.prog.MethodByName(tt, n)
		if f == nil {
			continue
		}
		for code := int64(0); code < 256; code++ {
			key := fmt.Sprintf("%s of type %d", n, code)
			for _, o := range l.run(key, f, base, mkIntT(tt, code)) {
				if l.alive(key, o) {
					c.ob(l.rule, n, o.st.facts.eval(o.rets[0]) == map[bool]int{true: 1, false: -1}[classes[n](code)], "gives %v for type %d", o.rets[0], code)
				}
			}
		}
	}
	text := map[string]int64{}
	for code := int64(0); code < 256; code++ {
		wire := code
		if code == 18 {
			wire = 11
		}
		key := fmt.Sprintf("wire code of type %d", code)
		for _, o := range l.run(key, c.prog.MethodByName(tt, "ThriftTypeId"), base, mkIntT(tt, code)) {
			if l.alive(key, o) {
				c.ob(l.rule, key, eq(o.st, o.rets[0], mkIntT(tByte, wire)), "gives %v", o.rets[0])
			}
		}
		if !in(0, 1, 2, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 127)(code) {
			continue
		}
		key = fmt.Sprintf("name of type %d", code)
		for _, o := range l.run(key, c.prog.MethodByName(tt, "String"), base, mkIntT(tt, code)) {
			if l.alive(key, o) {
				s, ok := o.rets[0].strConst()
				other, dup := text[s]
				c.ob(l.rule, key, ok && s != "" && !dup, "gives %v, as type %d", o.rets[0], other)
				text[s] = code
			}
		}
	}
	// types and numbers
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		for _, code := range []int64{0, 8, 127} {
			for _, x := range []int64{0, 8, 100, 127} {
				arg := mk(OIface, tAny, "", mkIntT(types.Typ[k], x))
				key := fmt.Sprintf("type %d and %s %d", code, types.Typ[k].Name(), x)
				for name, want := range map[string]bool{"Equals": code == x, "LessType": code < x} {
					for _, o := range l.run(key, c.prog.MethodByName(tt, name), base, mkIntT(tt, code), arg) {
						if l.alive(key, o) {
							c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == map[bool]int{true: 1, false: -1}[want], "%s gives %v", name, o.rets[0])
						}
					}
				}
			}
		}
	}
	for _, code := range []int64{2, 8, 18} {
		for _, x := range []int64{2, 8, 18} {
			arg := mk(OIface, tAny, "", mkIntT(tt, x))
			key := fmt.Sprintf("type %d and type %d", code, x)
			for name, want := range map[string]bool{"Equals": code == x, "LessType": code < x} {
				for _, o := range l.run(key, c.prog.MethodByName(tt, name), base, mkIntT(tt, code), arg) {
					if l.alive(key, o) {
						c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == map[bool]int{true: 1, false: -1}[want], "%s gives %v", name, o.rets[0])
					}
				}
			}
		}
	}
	// the type of a value
	type tv struct {
		name string
		v    *Val
		code int64
	}
	vals := []tv{}
	for _, k := range []struct {
		k    types.BasicKind
		code int64
	}{{types.Bool, 2}, {types.Uint8, 3}, {types.Int8, 3}, {types.Int16, 6}, {types.Int32, 8}, {types.Int, 8}, {types.Int64, 10}, {types.Float32, 4}, {types.Float64, 4}, {types.String, 11}} {
		vals = append(vals, tv{types.Typ[k.k].Name(), mk(OIface, tAny, "", atom(types.Typ[k.k], "x")), k.code})
	}
	vals = append(vals, tv{"[]byte", mk(OIface, tAny, "", seqAtom(types.NewSlice(tByte), "bytes", atom(tInt, "n"))), 18})
	st := base.clone()
	for _, k := range elemKinds() {
		if k.goT == nil {
			es, s, ok := l.elems(st, k, "e"+k.name)
			if ok {
				st = s
				vals = append(vals, tv{k.name, es[0].val, k.code})
			}
		}
	}
	if o, ok := l.one("NewStruct", l.run("NewStruct", c.prog.User.Func("NewStruct"), st, mkStr("s"), mkNil(types.NewSlice(c.prog.Type("TField"))), mkNil(types.NewSlice(tInt)), mkNil(types.NewSlice(tAny)))); ok {
		st = o.st
		vals = append(vals, tv{"struct of a user", o.rets[0], 12})
	}
	for _, v := range vals {
		key := "type of a value of type " + v.name
		for _, o := range l.fn("TypeFromValue", st, v.v) {
			if !l.alive(key, o) {
				continue
			}
			c.ob(l.rule, key, eq(o.st, o.rets[0], mkIntT(tt, v.code)), "gives %v, must be %d", o.rets[0], v.code)
			for _, q := range l.coerce(key, o.st, v.code, v.v) {
				c.ob(l.rule, key, q.st.facts.eval(q.rets[1]) > 0, "the type refuses the value")
			}
		}
	}
}

// infSign is the sign of a call of math.Inf.
func infSign(r *Val) int {
	if r.op != OCall || !strings.HasPrefix(r.aux, "math.Inf") || len(r.args) == 0 {
		return 0
	}
	n, ok := r.args[0].i64()
	switch {
	case !ok:
		return 0
	case n >= 0:
		return 1
	}
	return -1
}
