package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["C07"] = &check{run: runC07, min: 25,
		rule: "on every path the conversions to exceptions map nil to nil and every other error to a non-nil exception that keeps type and message of an exception, maps io.EOF to END_OF_FILE and base64 corruption to INVALID_DATA, and keeps the message of any other error; the read/write-field and -struct wrappers keep the type (INVALID_DATA for unknown), the names, the numeric field id and the cause",
		expl: "Abstract interpretation of the exception constructors and conversions for nil, for an exception of symbolic type and message, for io.EOF, for a base64 corruption error and for an arbitrary other error; the results are inspected through their TypeId and Error methods.",
		asm:  []string{"an error's Error method has no effect and returns the same text each time"},
	}
}

func pureErrorText(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	name := ""
	switch {
	case ci.recv == nil || ci.sfn != nil && (in.prog.Owned(ci.sfn) || (strings.HasPrefix(ci.name, "(*bytes.Buffer).") || strings.HasPrefix(ci.name, "(*strings.Builder)."))):
		return nil, false
	case ci.fn != nil:
		name = ci.fn.Name()
	case ci.sfn != nil:
		name = ci.sfn.Name()
	}
	switch name {
	case "Error", "TypeId", "String":
		rt := ci.sig.Results().At(0).Type()
		return []modelOut{{st: st, res: []*Val{mk(OCall, rt, "."+ci.fn.Name(), unwrap(ci.recv))}}}, true
	}
	return nil, false
}

func runC07(c *Ctx) {
	l := c.newLab("exceptions", Config{Model: pureErrorText})
	st0 := l.in.start()
	tid, msg := atom(tInt, "typeId"), atom(tString, "message")

	text := func(key string, st *State, v *Val) *Val {
		if o, ok := l.one(key, l.meth(st, v, "Error")); ok {
			return o.rets[0]
		}
		return nil
	}
	kind := func(key string, st *State, v *Val) *Val {
		if o, ok := l.one(key, l.meth(st, v, "TypeId")); ok {
			return o.rets[0]
		}
		return nil
	}
	// constructors
	type made struct {
		st *State
		v  *Val
	}
	build := func(name string, args ...*Val) (made, bool) {
		o, ok := l.one(name, l.fn(name, st0, args...))
		if !ok {
			return made{}, false
		}
		return made{o.st, o.rets[0]}, true
	}
	same := func(a, b *Val) bool { return a != nil && b != nil && convert2(a, b) }
	for _, k := range []string{"Transport", "Protocol", "Application"} {
		n := "NewT" + k + "Exception"
		a := tid
		if k == "Application" {
			a = atom(tI32, "typeId")
		}
		if m, ok := build(n, a, msg); ok {
			c.ob(l.rule, n+" keeps the type", same(kind(n, m.st, m.v), a), "TypeId() is %v", kind(n, m.st, m.v))
			c.ob(l.rule, n+" keeps the message", same(text(n, m.st, m.v), msg), "Error() is %v", text(n, m.st, m.v))
		}
	}
	if m, ok := build("NewTException", msg); ok {
		c.ob(l.rule, "NewTException keeps the message", same(text("NewTException", m.st, m.v), msg), "Error() is %v", text("NewTException", m.st, m.v))
	}
	zero := mkInt(0)
	for _, d := range []struct {
		n    string
		args []*Val
		k, m *Val
	}{
		{"NewTTransportExceptionDefault", nil, zero, nil},
		{"NewTTransportExceptionDefaultType", []*Val{tid}, tid, nil},
		{"NewTTransportExceptionDefaultString", []*Val{msg}, zero, msg},
		{"NewTProtocolExceptionDefault", nil, zero, nil},
		{"NewTProtocolExceptionDefaultType", []*Val{tid}, tid, nil},
		{"NewTProtocolExceptionDefaultString", []*Val{msg}, zero, msg},
		{"NewTApplicationExceptionDefault", nil, mkIntT(tI32, 0), nil},
		{"NewTApplicationExceptionType", []*Val{atom(tI32, "typeId")}, atom(tI32, "typeId"), nil},
		{"NewTApplicationExceptionMessage", []*Val{msg}, mkIntT(tI32, 0), msg},
	} {
		if m, ok := build(d.n, d.args...); ok {
			c.ob(l.rule, d.n+" type", same(kind(d.n, m.st, m.v), d.k), "TypeId() is %v, stated %v", kind(d.n, m.st, m.v), d.k)
			if d.m != nil {
				c.ob(l.rule, d.n+" message", same(text(d.n, m.st, m.v), d.m), "Error() is %v", text(d.n, m.st, m.v))
			}
		}
	}
	// conversions
	excTypes := []string{"NewTTransportException", "NewTProtocolException"}
	for _, cv := range []struct {
		n    string
		eof  int64
		b64  int64
		kind bool
		only string
	}{
		{"NewTTransportExceptionFromOsError", 4, 0, true, ""},
		{"NewTProtocolExceptionFromOsError", 0, 1, true, ""},
		{"NewTProtocolExceptionFromTransportException", -1, -1, true, "exc"},
		{"NewTExceptionFromOsError", -1, -1, false, ""},
	} {
		f := c.prog.Func(cv.n)
		if !c.need(cv.n, f != nil && len(f.Params) == 1) {
			continue
		}
		pt := f.Params[0].Type()
		for _, o := range l.fn(cv.n, st0, mkNil(pt)) {
			c.ob(l.rule, cv.n+" nil", o.kind == XReturn && o.rets[0].isNil(), "nil gives %s", c.descOutcome(o))
		}
		for _, ctor := range excTypes {
			if m, ok := build(ctor, tid, msg); ok {
				for _, o := range l.fn(cv.n, m.st, m.v) {
					key := cv.n + " of an exception"
					if o.kind != XReturn || o.rets[0].isNil() {
						c.ob(l.rule, key, false, "%s", c.descOutcome(o))
						continue
					}
					if cv.kind {
						k := kind(key, o.st, o.rets[0])
						c.ob(l.rule, key+" keeps the type", same(k, tid), "TypeId() is %v for %s; %s", k, ctor, c.descOutcome(o))
					}
					t := text(key, o.st, o.rets[0])
					c.ob(l.rule, key+" keeps the message", same(t, msg), "Error() is %v for %s", t, ctor)
				}
			}
		}
		if cv.only == "exc" {
			continue
		}
		// errors that are no exceptions
		e := atom(pt, "err")
		st := st0.clone()
		st.facts.isnil[e] = false
		eofs, b64s := 0, 0
		for _, o := range l.fn(cv.n, st, e) {
			key := cv.n + " of another error"
			if o.kind != XReturn {
				c.ob(l.rule, key, false, "%s", c.descOutcome(o))
				continue
			}
			r := o.rets[0]
			if unwrap(r) == e {
				c.ob(l.rule, key, true, "is returned as it is")
				continue
			}
			if n, ok := o.st.facts.nilness(r); !c.ob(l.rule, key, ok && !n, "a non-nil error becomes %v: %s", r, c.descOutcome(o)) {
				continue
			}
			if !c.ob(l.rule, key, unwrap(o.st.facts.simp(r)).op != OAtom, "the result is not known: %s", c.descOutcome(o)) {
				continue
			}
			t := text(key, o.st, r)
			c.ob(l.rule, key+" keeps the message", t != nil && mentions(t, mk(OCall, tString, ".Error", e)), "Error() is %v: %s", t, c.descOutcome(o))
			if !cv.kind {
				continue
			}
			k := kind(key, o.st, r)
			want := int64(0)
			if isEOF(o.st, e) {
				eofs++
				want = cv.eof
			}
			if d, ok := o.st.facts.dyn[e]; ok && types.TypeString(d, nil) == "encoding/base64.CorruptInputError" {
				b64s++
				want = cv.b64
			}
			c.ob(l.rule, key+" type", same(k, mkInt(want)), "TypeId() is %v, stated %d: %s", k, want, c.descOutcome(o))
		}
		if cv.eof > 0 {
			c.ob(l.rule, cv.n+" of io.EOF", eofs > 0, "no path singles out io.EOF")
		}
		if cv.b64 > 0 {
			c.ob(l.rule, cv.n+" of base64.CorruptInputError", b64s > 0, "no path singles out base64.CorruptInputError")
		}
	}
	// wrappers
	fid, fname, sname := atom(tInt, "fieldId"), atom(tString, "fieldName"), atom(tString, "structName")
	for _, wr := range []struct {
		n    string
		args []*Val
	}{
		{"NewTProtocolExceptionReadField", []*Val{fid, fname, sname}},
		{"NewTProtocolExceptionWriteField", []*Val{fid, fname, sname}},
		{"NewTProtocolExceptionReadStruct", []*Val{sname}},
		{"NewTProtocolExceptionWriteStruct", []*Val{sname}},
	} {
		m, ok := build("NewTProtocolException", tid, msg)
		if !ok {
			return
		}
		for _, o := range l.fn(wr.n, m.st, append(append([]*Val(nil), wr.args...), m.v)...) {
			if o.kind != XReturn || o.rets[0].isNil() {
				c.ob(l.rule, wr.n, false, "%s", c.descOutcome(o))
				continue
			}
			k := kind(wr.n, o.st, o.rets[0])
			f := o.st.facts.clone()
			good := k != nil
			if good {
				if e := f.eval(mkEq(tid, zero)); e > 0 {
					good = sameVal(f, k, mkInt(1))
				} else if e < 0 {
					good = sameVal(f, k, tid)
				} else {
					good = false
				}
			}
			c.ob(l.rule, wr.n+" type", good, "TypeId() is %v: %s", k, c.descOutcome(o))
			t := text(wr.n, o.st, o.rets[0])
			for _, a := range wr.args {
				c.ob(l.rule, wr.n+" message has "+a.String(), mentions(t, a) && !runeOf(t, a), "Error() is %v", t)
			}
			c.ob(l.rule, wr.n+" message has the cause", mentions(t, msg), "Error() is %v", t)
		}
	}
}

// runeOf: an integer is converted to a string as a code point.
func runeOf(v, a *Val) bool {
	if v == nil {
		return false
	}
	if v.op == OConv && v.typ != nil && isString(v.typ) && len(v.args) == 1 && v.args[0].typ != nil && isInt(v.args[0].typ) && mentions(v.args[0], a) {
		return true
	}
	for _, x := range v.args {
		if runeOf(x, a) {
			return true
		}
	}
	return false
}

func convert2(a, b *Val) bool { return sameVal(newFacts(), a, b) }

// isEOF: the path established that e is io.EOF.
func isEOF(st *State, e *Val) bool {
	for k, v := range st.facts.truth {
		if v && k.op == OEq && (k.args[0] == e || k.args[1] == e) {
			for _, a := range k.args {
				if a != e && isGlobalNamed(a, "io.EOF") {
					return true
				}
			}
		}
	}
	return false
}

// isGlobalNamed: the value loaded from the named package-level variable.
func isGlobalNamed(v *Val, name string) bool {
	s := v.String()
	return len(s) >= len(name) && containsStr(s, name)
}

func containsStr(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}
