package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = &check{run: runC10, min: 30,
		rule: "on every path, Skip of a scalar type is the one matching read; of a struct ReadStructBegin, per field ReadFieldBegin, a skip of its type one level down, ReadFieldEnd, up to the stop field, then ReadStructEnd; of a map, list or set its Begin, a skip of every key/value/element one level down as often as the declared size says, its End; any failing operation ends it with that error; exhausted depth and types without a value are errors before any read; each protocol's Skip is that on itself with MaxSkipDepth",
		expl: "Abstract interpretation of Skip over an abstract protocol whose operations succeed with arbitrary results or fail; recursive calls are taken as one operation and carry their type and depth. The Skip method of every type implementing TProtocol is analysed with Skip abstract.",
		asm:  []string{"a recursive skip obeys the property one level down (induction on the depth)"},
	}
}

func runC10(c *Ctx) {
	rule := "skip"
	f := c.prog.Func("Skip")
	tt := c.prog.Type("TType")
	if !c.need("function Skip(TProtocol, TType, int)", f != nil && len(f.Params) == 3) {
		return
	}
	p := c.newProto("prot")
	if p == nil {
		return
	}
	p.also = func(in *Interp, st *State, ci *callInfo) (string, bool) {
		if ci.sfn == nil || !in.prog.Owned(ci.sfn) {
			return "", false
		}
		for _, s := range in.stack {
			if s == ci.sfn {
				return "skip", true
			}
		}
		return "", false
	}
	l := c.newLab(rule, Config{Model: p.model, Unroll: 4, PossiblePanics: true})
	// the arguments of a recursive skip
	skipArgs := func(t *tr, e *Event) (typ, depth *Val) {
		me := false
		all := e.args
		if e.recv != nil {
			all = append([]*Val{e.recv}, all...)
		}
		for _, a := range all {
			switch {
			case p.isMe(a):
				me = true
			case types.Identical(a.typ, tt):
				typ = a
			case types.Identical(a.typ, tInt):
				depth = a
			}
		}
		if !me {
			t.fail("a nested skip works on another protocol")
		}
		if typ == nil || depth == nil {
			t.fail("a nested skip without type or depth")
		}
		return
	}
	st := l.in.start()
	st.facts.isnil[p.v] = false
	depth := atom(tInt, "maxDepth")
	pos := st.clone()
	pos.facts.refine(depth, Range{big.NewInt(1), big.NewInt(1<<62 - 1)})
	neg := st.clone()
	neg.facts.refine(depth, Range{big.NewInt(-1 << 62), big.NewInt(0)})
	type one struct {
		t  int
		m  string
		or bool // an error instead is fine
	}
	scal := []one{{2, "ReadBool", false}, {3, "ReadByte", false}, {4, "ReadDouble", false}, {6, "ReadI16", false}, {8, "ReadI32", false}, {10, "ReadI64", false}, {11, "ReadString", false}, {16, "", true}, {17, "", true}, {18, "", true}}
	skip := func(key string, s *State, typ *Val, spec func(t *tr)) {
		c.traces(rule, key, l.run("Skip", f, s, p.v, typ, depth), spec)
	}
	for _, s := range scal {
		skip(fmt.Sprintf("Skip type %d", s.t), pos, c.ttype(s.t), func(t *tr) {
			if s.or {
				if n := t.peek(); n == "ReadString" || n == "ReadBinary" || n == "ReadI32" {
					t.op(n)
					t.end(false)
				}
				t.end(true)
			}
			t.op(s.m)
			t.end(false)
		})
	}
	nested := func(t *tr, typ *Val) {
		e := t.op2("skip", func(e *Event) {
			ty, d := skipArgs(t, e)
			if !sameVal(t.f, ty, typ) {
				t.fail("skips type %v where %v is due", ty, typ)
			}
			if !sameVal(t.f, d, binopSub(depth, mkInt(1))) {
				t.fail("skips with depth %v, one level down is %v", d, binopSub(depth, mkInt(1)))
			}
		})
		_ = e
	}
	skip("Skip struct", pos, c.ttype(12), func(t *tr) {
		t.op("ReadStructBegin")
		for {
			e := t.op("ReadFieldBegin")
			if t.is(mkEq(e.res[1], c.ttype(0))) {
				break
			}
			nested(t, e.res[1])
			t.op("ReadFieldEnd")
		}
		t.op("ReadStructEnd")
		t.end(false)
	})
	for _, k := range []one{{13, "Map", false}, {14, "Set", false}, {15, "List", false}} {
		skip("Skip "+k.m, pos, c.ttype(k.t), func(t *tr) {
			e := t.op("Read" + k.m + "Begin")
			elems := e.res[:len(e.res)-2]
			size := e.res[len(e.res)-2]
			n := int64(0)
			for t.peek() == "skip" {
				for _, x := range elems {
					if n < 3 && !t.is(mkLtInt(mkInt(n), size)) {
						t.fail("skips %d elements of %v", n+1, size)
					}
					nested(t, x)
				}
				n++
			}
			if n < 3 && t.is(mkLtInt(mkInt(n), size)) {
				t.fail("skips %d elements of %v", n, size)
			}
			t.op("Read" + k.m + "End")
			t.end(false)
		})
	}
	// types without a value
	bad := pos.clone()
	other := atom(tt, "fieldType")
	for i := 0; i <= 18; i++ {
		if i != 1 && i != 5 && i != 7 && i != 9 {
			bad.facts.assume(mkEq(other, c.ttype(i)), false)
		}
	}
	skip("Skip other types", bad, other, func(t *tr) { t.end(true) })
	skip("Skip stop", pos, c.ttype(0), func(t *tr) {
		if errState(t.o.st, t.o.rets[0]) > 0 {
			t.end(true)
		}
		t.end(false)
	})
	for i := 2; i <= 15; i++ {
		skip("Skip beyond the depth limit", neg, c.ttype(i), func(t *tr) { t.end(true) })
	}
	// SkipDefaultDepth, SetMaxSkipDepth and the Skip methods
	g := c.prog.Thrift.Var("MaxSkipDepth")
	if !c.need("variable MaxSkipDepth", g != nil) {
		return
	}
	l2 := c.newLab(rule, Config{Model: func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
		if ci.sfn == f {
			st.add(&Event{kind: EvCall, name: "Skip", method: "Skip", args: ci.args, pos: ci.pos, in: ci.in})
			return []modelOut{{st: st, res: []*Val{atom(ci.sig.Results().At(0).Type(), "skipped")}}}, true
		}
		return nil, false
	}, Opaque: func(x *ssa.Function) bool { return x == f }})
	sdd := func(key string, self, ft *Val, outs []Outcome, st *State) {
		limit := l2.in.load(st, globalAddr(g))
		for _, o := range outs {
			evs := o.st.trace.list()
			good := o.kind == XReturn && len(evs) == 1 && evs[0].name == "Skip" && len(o.rets) == 1 && unwrap(o.rets[0]).aux == "skipped"
			if !c.ob(rule, key+" delegates to Skip", good, "%s", c.descOutcome(o)) {
				continue
			}
			a := evs[0].args
			c.ob(rule, key+" skips on itself", unwrap(a[0]) == self, "skips on %v: %s", a[0], c.descOutcome(o))
			c.ob(rule, key+" skips the type asked for", a[1] == ft, "skips type %v", a[1])
			c.ob(rule, key+" uses MaxSkipDepth", a[2] == limit, "depth is %v, the limit is %v", a[2], limit)
		}
	}
	ft := atom(tt, "fieldType")
	st2 := l2.in.start()
	l2.in.load(st2, globalAddr(g))
	self := atom(p.v.typ, "self")
	st2.facts.isnil[self] = false
	sdd("SkipDefaultDepth", self, ft, l2.fn("SkipDefaultDepth", st2, self, ft), st2)
	n := 0
	for _, t := range c.prog.implementors(p.it) {
		m := c.prog.MethodByName(t, "Skip")
		recv := atom(t, "self")
		s := st2.clone()
		s.facts.isnil[recv] = false
		n++
		sdd(types.TypeString(t, qual)+".Skip", recv, ft, l2.run(types.TypeString(t, qual)+".Skip", m, s, recv, ft), s)
	}
	c.ob(rule, "protocols with Skip", n >= 4, "%d types implement TProtocol", n)
	if set := c.prog.Func("SetMaxSkipDepth"); c.need("SetMaxSkipDepth", set != nil) {
		for _, o := range l2.run("SetMaxSkipDepth", set, l2.in.start(), depth) {
			c.ob(rule, "SetMaxSkipDepth sets the limit", o.kind == XReturn && l2.in.load(o.st, globalAddr(g)) == depth, "%s", c.descOutcome(o))
		}
	}
}

// op2 checks an operation before its failure is looked at.
func (t *tr) op2(name string, chk func(e *Event)) *Event {
	if t.i < len(t.evs) && t.evs[t.i].method == name {
		chk(t.evs[t.i])
	}
	return t.op(name)
}
