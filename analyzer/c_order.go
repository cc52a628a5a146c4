package main

// C23: ordering of values.

import (
	"fmt"
	"go/types"
)

func init() {
	checks["C23"] = &check{run: runC23, min: 80,
		rule: "for two values of a thrift type in each order, Compare gives -1, 0 or 1 with true and Less whether it is -1; nil comes before everything; values that cannot be coerced come before those that can and do not panic; lists, sets and maps compare by element types, then sizes, then their elements in order, whatever the iteration order of Go maps; structs compare by name, then fields, then attributes; Equals is Compare giving 0; CompareBool, CompareByte, CompareInt, … give the sign of the order; no comparison leaves a goroutine behind",
		expl: "Path-sensitive abstract interpretation of Compare, Less, Equals and CompareTo over symbolic values whose relative order is assumed, one run per order; goroutines feeding a channel are interpreted where they start, iteration over a Go map visits its entries in every order.",
		asm:  []string{"floating-point values compared are not NaN"},
	}
}

func runC23(c *Ctx) {
	l := c.collLab("order")
	tt := c.prog.Type("TType")
	if !c.need("type TType", tt != nil) {
		return
	}
	base := l.in.start()
	isNum := func(v *Val, n int) bool { x, ok := v.i64(); return ok && x == int64(n) }
	// Compare(a, b) must give rel
	compare := func(key string, st *State, p, a, b *Val, rel int) {
		for _, o := range l.run(key, c.prog.MethodByName(tt, "Compare"), st, p, a, b) {
			if l.alive(key, o) {
				c.ob(l.rule, key, isNum(o.st.facts.simpConst(o.rets[0]), rel) && o.st.facts.eval(o.rets[1]) > 0, "Compare gives %v, %v; must be %d, true; %s", o.rets[0], o.rets[1], rel, c.descOutcome(o))
			}
		}
		for _, o := range l.run(key+" (Less)", c.prog.MethodByName(tt, "Less"), st, p, a, b) {
			if l.alive(key, o) {
				want := -1
				if rel < 0 {
					want = 1
				}
				c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == want, "Less gives %v; must be %v; %s", o.rets[0], rel < 0, c.descOutcome(o))
			}
		}
	}
	methods := func(key string, st *State, a, b *Val, rel int) {
		for _, o := range l.meth(st, a, "Equals", mk(OIface, tAny, "", unwrapAny(b))) {
			if l.alive(key, o) {
				want := -1
				if rel == 0 {
					want = 1
				}
				c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == want, "Equals gives %v; must be %v; %s", o.rets[0], rel == 0, c.descOutcome(o))
			}
		}
		for _, o := range l.lessTo(st, a, mk(OIface, tAny, "", unwrapAny(b))) {
			if l.alive(key, o) {
				want := -1
				if rel < 0 {
					want = 1
				}
				c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == want, "its method Less gives %v; must be %v; %s", o.rets[0], rel < 0, c.descOutcome(o))
			}
		}
		for _, o := range l.meth(st, a, "CompareTo", mk(OIface, tAny, "", unwrapAny(b))) {
			if l.alive(key, o) {
				c.ob(l.rule, key, isNum(o.st.facts.simpConst(o.rets[0]), rel) && o.st.facts.eval(o.rets[1]) > 0, "CompareTo gives %v, %v; must be %d, true; %s", o.rets[0], o.rets[1], rel, c.descOutcome(o))
			}
		}
	}
	relName := map[int]string{-1: "<", 0: "=", 1: ">"}
	nilv := mkNil(tAny)
	for _, k := range elemKinds() {
		p := mkIntT(tt, k.code)
		es, st, ok := l.elems(base, k, "a", "b")
		if !ok {
			continue
		}
		for _, rk := range weakOrders(2) {
			for _, s := range ordered(st, es, rk) {
				rel := sgn(rk[0] - rk[1])
				key := k.name + " a" + relName[rel] + "b"
				compare(key, s, p, es[0].val, es[1].val, rel)
				if k.goT == nil {
					methods(key, s, es[0].val, es[1].val, rel)
				}
			}
		}
		compare(k.name+" with itself", selfEqual(st, es[0]), p, es[0].val, es[0].val, 0)
		compare(k.name+" nil and a value", st, p, nilv, es[0].val, -1)
		compare(k.name+" a value and nil", st, p, es[0].val, nilv, 1)
		compare(k.name+" nil and nil", st, p, nilv, nilv, 0)
		// values given in another type of integer
		if bt, isB := k.goT.(*types.Basic); isB && bt.Info()&types.IsInteger != 0 {
			for _, t := range []types.Type{tInt, types.Typ[types.Int64], types.Typ[types.Int32]} {
				if t == types.Type(types.Typ[types.Int32]) && k.code == 10 {
					continue
				}
				w := mk(OIface, tAny, "", l.in.conv(st, es[1].key, t))
				for _, rk := range weakOrders(2) {
					for _, s := range ordered(st, es, rk) {
						rel := sgn(rk[0] - rk[1])
						key := k.name + " a" + relName[rel] + "b, b as " + t.String()
						compare(key, s, p, es[0].val, w, rel)
						compare(key+" reversed", s, p, w, es[0].val, -rel)
					}
				}
			}
		}
		// values that cannot be coerced and that Go cannot compare
		bad := mk(OIface, tAny, "", seqAtom(types.NewSlice(tAny), "junk", atom(tInt, "n")))
		compare(k.name+" junk and a value", st, p, bad, es[0].val, -1)
		compare(k.name+" a value and junk", st, p, es[0].val, bad, 1)
		key := k.name + " junk and junk"
		for _, o := range l.run(key, c.prog.MethodByName(tt, "Compare"), st, p, bad, bad) {
			l.alive(key, o)
		}
	}
	c.orderContainers(l, base, compare, methods)
	c.orderStructs(l, base, compare, methods)
	c.orderSymbolic(l, base, compare, methods)
	c.orderMatrix(l, base)
	c.orderArrays(l, base)
	// helpers
	for _, h := range []struct {
		fn string
		t  types.Type
	}{{"CompareInt", tInt}, {"CompareInt16", types.Typ[types.Int16]}, {"CompareInt32", types.Typ[types.Int32]}, {"CompareInt64", types.Typ[types.Int64]}, {"CompareString", tString}, {"CompareFloat", types.Typ[types.Float32]}, {"CompareDouble", types.Typ[types.Float64]}, {"CompareByte", tByte}, {"CompareBool", tBool}} {
		f := c.prog.Func(h.fn)
		if f == nil || len(f.Params) != 2 {
			continue
		}
		if !types.Identical(f.Params[0].Type(), h.t) {
			c.ob(l.rule, h.fn, false, "takes %v, not every %v can be compared", f.Params[0].Type(), h.t)
			continue
		}
		a, b := elem{name: "a", key: atom(h.t, "a")}, elem{name: "b", key: atom(h.t, "b")}
		for _, rk := range weakOrders(2) {
			for _, s := range ordered(base, []elem{a, b}, rk) {
				rel := sgn(rk[0] - rk[1])
				key := h.fn + " a" + relName[rel] + "b"
				for _, o := range l.run(key, f, s, a.key, b.key) {
					if l.alive(key, o) {
						c.ob(l.rule, key, isNum(o.st.facts.simpConst(o.rets[0]), rel), "gives %v; must be %d", o.rets[0], rel)
					}
				}
			}
		}
	}
}

func selfEqual(st *State, e elem) *State {
	st = st.clone()
	st.facts.assume(mkEq(e.key, e.key), true)
	return st
}

// orderContainers compares containers of several elements.
func (c *Ctx) orderContainers(l *lab, base *State, compare, methods0 any) {
	cmp := compare.(func(key string, st *State, p, a, b *Val, rel int))
	methods := methods0.(func(key string, st *State, a, b *Val, rel int))
	tt := c.prog.Type("TType")
	i32 := types.Typ[types.Int32]
	ty := func(n int64) *Val { return mkIntT(tt, n) }
	num := func(n int64) *Val { return mk(OIface, tAny, "", mkIntT(i32, n)) }
	txt := func(s string) *Val { return mk(OIface, tAny, "", mkStr(s)) }
	type mkc func(st *State) (*Val, *State, bool)
	list := func(t int64, xs ...*Val) mkc {
		return func(st *State) (*Val, *State, bool) {
			var as [][]*Val
			for _, x := range xs {
				as = append(as, []*Val{x})
			}
			return l.build(st, "NewTList", []*Val{ty(t)}, "Push", as...)
		}
	}
	set := func(t int64, xs ...*Val) mkc {
		return func(st *State) (*Val, *State, bool) {
			var as [][]*Val
			for _, x := range xs {
				as = append(as, []*Val{x})
			}
			return l.build(st, "NewTSet", []*Val{ty(t)}, "Add", as...)
		}
	}
	mp := func(k, v int64, kv ...*Val) mkc {
		return func(st *State) (*Val, *State, bool) {
			var as [][]*Val
			for i := 0; i < len(kv); i += 2 {
				as = append(as, []*Val{kv[i], kv[i+1]})
			}
			return l.build(st, "NewTMap", []*Val{ty(k), ty(v)}, "Set", as...)
		}
	}
	n1, n2, n3, n4 := num(1), num(2), num(3), num(4)
	sa, sb := txt("a"), txt("b")
	groups := []struct {
		name string
		code int64
		// pairs (a, b) with the required order; anti: only antisymmetry is required
		pairs []struct {
			what string
			a, b mkc
			rel  int
			anti bool
		}
	}{
		{"LIST", 15, nil}, {"SET", 14, nil}, {"MAP", 13, nil},
	}
	add := func(g int, what string, a, b mkc, rel int, anti bool) {
		groups[g].pairs = append(groups[g].pairs, struct {
			what string
			a, b mkc
			rel  int
			anti bool
		}{what, a, b, rel, anti})
	}
	add(0, "element types", list(8, n4, n4), list(11, sa), -1, false)
	add(0, "sizes", list(8, n4), list(8, n1, n1), -1, false)
	add(0, "empty", list(8), list(8), 0, false)
	add(0, "empty and not", list(8), list(8, n1), -1, false)
	add(0, "second element", list(8, n1, n2), list(8, n1, n3), -1, false)
	add(0, "first element decides", list(8, n1, n4), list(8, n2, n3), -1, false)
	add(0, "order of elements matters", list(8, n1, n2), list(8, n2, n1), -1, false)
	add(0, "equal", list(11, sa, sb), list(11, sa, sb), 0, false)
	add(0, "three elements, the middle one", list(8, n1, n2, n4), list(8, n1, n3, n3), -1, false)
	add(1, "element types", set(8, n4, n3), set(11, sa), -1, false)
	add(1, "sizes", set(8, n4), set(8, n1, n2), -1, false)
	add(1, "empty", set(8), set(8), 0, false)
	add(1, "empty and not", set(8), set(8, n1), -1, false)
	add(1, "equal in any order of insertion", set(8, n1, n2, n3), set(8, n3, n1, n2), 0, false)
	add(1, "equal text in any order of insertion", set(11, sa, sb), set(11, sb, sa), 0, false)
	add(1, "different", set(8, n1, n2), set(8, n1, n3), 0, true)
	add(2, "key types", mp(8, 8, n4, n4, n3, n3), mp(11, 8, sa, n1), -1, false)
	add(2, "value types", mp(8, 8, n4, n4, n3, n3), mp(8, 11, n1, sa), -1, false)
	add(2, "sizes", mp(8, 8, n4, n4), mp(8, 8, n1, n1, n2, n2), -1, false)
	add(2, "empty", mp(8, 8), mp(8, 8), 0, false)
	add(2, "empty and not", mp(8, 8), mp(8, 8, n1, n1), -1, false)
	add(2, "equal in any order of insertion", mp(8, 11, n1, sa, n2, sb), mp(8, 11, n2, sb, n1, sa), 0, false)
	add(2, "equal with text keys", mp(11, 8, sa, n1, sb, n2), mp(11, 8, sb, n2, sa, n1), 0, false)
	add(2, "keys differ", mp(8, 8, n1, n1, n2, n2), mp(8, 8, n1, n1, n3, n2), 0, true)
	add(2, "values differ", mp(8, 8, n1, n1, n2, n2), mp(8, 8, n1, n1, n2, n3), 0, true)
	add(2, "values swapped", mp(8, 8, n1, n1, n2, n2), mp(8, 8, n1, n2, n2, n1), 0, true)
	for _, g := range groups {
		p := ty(g.code)
		for _, q := range g.pairs {
			key := g.name + " " + q.what
			a, st, ok := q.a(base)
			if !ok {
				continue
			}
			b, st, ok := q.b(st)
			if !ok {
				continue
			}
			x, y := mk(OIface, tAny, "", unwrapAny(a)), mk(OIface, tAny, "", unwrapAny(b))
			if !q.anti {
				cmp(key, st, p, x, y, q.rel)
				cmp(key+" reversed", st, p, y, x, -q.rel)
				methods(key, st, x, y, q.rel)
				methods(key+" reversed", st, y, x, -q.rel)
				continue
			}
			// they differ, and swapping them swaps the order
			f := c.prog.MethodByName(tt, "Compare")
			got := map[int64]bool{}
			dir := func(x, y *Val, neg bool) {
				for _, o := range l.run(key, f, st, p, x, y) {
					if !l.alive(key, o) {
						continue
					}
					n, ok := o.st.facts.simpConst(o.rets[0]).i64()
					if c.ob(l.rule, key, ok && (n == 1 || n == -1) && o.st.facts.eval(o.rets[1]) > 0, "Compare gives %v, %v where the two differ; %s", o.rets[0], o.rets[1], c.descOutcome(o)) {
						if neg {
							n = -n
						}
						got[n] = true
					}
				}
			}
			dir(x, y, false)
			dir(y, x, true)
			c.ob(l.rule, key, len(got) == 1, "the order depends on more than the two values: %v", fmt.Sprint(got))
		}
	}
}

// orderStructs compares structs whose names, fields and attributes are chosen by the analysis.
func (c *Ctx) orderStructs(l *lab, base *State, compare func(key string, st *State, p, a, b *Val, rel int), methods func(key string, st *State, a, b *Val, rel int)) {
	tt := c.prog.Type("TType")
	ft := c.prog.Type("TField")
	if !c.need("type TField and the public interface of structs", ft != nil && c.prog.User != nil) {
		return
	}
	i32 := types.Typ[types.Int32]
	type sdesc struct {
		name   string
		fields [][3]string // name, type code, id
		attrs  map[int64]*Val
	}
	num := func(n int64) *Val { return mk(OIface, tAny, "", mkIntT(i32, n)) }
	code := map[string]int64{"I32": 8, "STRING": 11}
	fa, fb := [3]string{"x", "I32", "1"}, [3]string{"y", "I32", "2"}
	fs := [3]string{"y", "STRING", "2"}
	cases := []struct {
		what string
		a, b sdesc
		rel  int
	}{
		{"names", sdesc{"A", nil, nil}, sdesc{"B", nil, nil}, -1},
		{"names decide before attributes", sdesc{"A", [][3]string{fa}, map[int64]*Val{1: num(2)}}, sdesc{"B", [][3]string{fa}, map[int64]*Val{1: num(1)}}, -1},
		{"number of fields", sdesc{"A", [][3]string{fa}, map[int64]*Val{1: num(2)}}, sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(1), 2: num(1)}}, -1},
		{"field types", sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(2), 2: num(1)}}, sdesc{"A", [][3]string{fa, fs}, map[int64]*Val{1: num(1), 2: mk(OIface, tAny, "", mkStr("z"))}}, -1},
		{"attributes", sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(1), 2: num(2)}}, sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(1), 2: num(3)}}, -1},
		{"the first attribute decides", sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(1), 2: num(9)}}, sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(2), 2: num(3)}}, -1},
		{"unset attributes come first", sdesc{"A", [][3]string{fa}, map[int64]*Val{1: mkNil(tAny)}}, sdesc{"A", [][3]string{fa}, map[int64]*Val{1: num(-5)}}, -1},
		{"equal", sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(1), 2: num(2)}}, sdesc{"A", [][3]string{fa, fb}, map[int64]*Val{1: num(1), 2: num(2)}}, 0},
	}
	for _, q := range cases {
		key := "STRUCT " + q.what
		st := base
		ok := true
		build := func(d sdesc) *Val {
			var fields, ids, vals []*Val
			for _, f := range d.fields {
				id := int64(f[2][0] - '0')
				o, k := l.one("NewTField", l.fn("NewTField", st, mkStr(f[0]), mkIntT(tt, code[f[1]]), mkInt(id)))
				if !k {
					ok = false
					return nil
				}
				st = o.st
				fields = append(fields, o.rets[0])
				ids = append(ids, mkInt(id))
				vals = append(vals, d.attrs[id])
			}
			seq := func(t types.Type, vs []*Val) *Val {
				ks := make([]byte, len(vs))
				for i := range ks {
					ks[i] = 'e'
				}
				return mkSeq(types.NewSlice(t), vs, ks)
			}
			o, k := l.one("NewStruct", l.run("NewStruct", c.prog.User.Func("NewStruct"), st, mkStr(d.name), seq(ft, fields), seq(tInt, ids), seq(tAny, vals)))
			if !k {
				ok = false
				return nil
			}
			st = o.st
			return mk(OIface, tAny, "", unwrapAny(o.rets[0]))
		}
		av := build(q.a)
		if !ok {
			continue
		}
		bv := build(q.b)
		if !ok {
			continue
		}
		compare(key, st, mkIntT(tt, 12), av, bv, q.rel)
		compare(key+" reversed", st, mkIntT(tt, 12), bv, av, -q.rel)
		methods(key, st, av, bv, q.rel)
		methods(key+" reversed", st, bv, av, -q.rel)
	}
}

// lessTo runs the method Less(other) where the value has one (the Less of a list compares two of its elements).
func (l *lab) lessTo(st *State, a, b *Val) []Outcome {
	d := unwrapAny(a)
	if d == nil {
		return nil
	}
	f := l.c.prog.MethodByName(d.typ, "Less")
	if f == nil || f.Signature.Params().Len() != 1 {
		return nil
	}
	return l.meth(st, a, "Less", b)
}

// build makes a container by public calls.
func (l *lab) build(st *State, ctor string, types []*Val, add string, args ...[]*Val) (*Val, *State, bool) {
	o, ok := l.one(ctor, l.fn(ctor, st, append(append([]*Val(nil), types...), mkInt(int64(len(args))))...))
	if !ok {
		return nil, nil, false
	}
	v, st := o.rets[0], o.st
	for _, a := range args {
		q, ok := l.one(add, l.meth(st, v, add, a...))
		if !ok {
			return nil, nil, false
		}
		st = q.st
	}
	return v, st, true
}

// orderSymbolic compares containers that differ in one element, for every type of element and every
// relative order of the two.
func (c *Ctx) orderSymbolic(l *lab, base *State, compare func(key string, st *State, p, a, b *Val, rel int), methods func(key string, st *State, a, b *Val, rel int)) {
	tt := c.prog.Type("TType")
	i32 := mkIntT(tt, 8)
	one := mk(OIface, tAny, "", mkIntT(types.Typ[types.Int32], 1))
	relName := map[int]string{-1: "<", 0: "=", 1: ">"}
	for _, k := range elemKinds() {
		t := mkIntT(tt, k.code)
		es, st, ok := l.elems(base, k, "a", "b")
		if !ok {
			continue
		}
		forms := []struct {
			name string
			code int64
			mk   func(st *State, e *Val) (*Val, *State, bool)
		}{
			{"LIST of " + k.name, 15, func(st *State, e *Val) (*Val, *State, bool) {
				return l.build(st, "NewTList", []*Val{t}, "Push", []*Val{e})
			}},
			{"SET of " + k.name, 14, func(st *State, e *Val) (*Val, *State, bool) {
				return l.build(st, "NewTSet", []*Val{t}, "Add", []*Val{e})
			}},
			{"MAP with " + k.name + " keys", 13, func(st *State, e *Val) (*Val, *State, bool) {
				return l.build(st, "NewTMap", []*Val{t, i32}, "Set", []*Val{e, one})
			}},
			{"MAP with " + k.name + " values", 13, func(st *State, e *Val) (*Val, *State, bool) {
				return l.build(st, "NewTMap", []*Val{i32, t}, "Set", []*Val{one, e})
			}},
		}
		for _, f := range forms {
			a, st, ok := f.mk(st, es[0].val)
			if !ok {
				continue
			}
			b, st, ok := f.mk(st, es[1].val)
			if !ok {
				continue
			}
			for _, rk := range weakOrders(2) {
				for _, s := range ordered(st, es, rk) {
					rel := sgn(rk[0] - rk[1])
					key := f.name + " a" + relName[rel] + "b"
					x, y := mk(OIface, tAny, "", unwrapAny(a)), mk(OIface, tAny, "", unwrapAny(b))
					compare(key, s, mkIntT(tt, f.code), x, y, rel)
					methods(key, s, x, y, rel)
				}
			}
		}
	}
}

// orderMatrix compares every two of a family of containers and checks that the results are one total order.
func (c *Ctx) orderMatrix(l *lab, base *State) {
	tt := c.prog.Type("TType")
	ty := func(n int64) *Val { return mkIntT(tt, n) }
	num := func(n int64) *Val { return mk(OIface, tAny, "", mkIntT(types.Typ[types.Int32], n)) }
	type member struct {
		name string
		args [][]*Val
	}
	var lists, sets, maps []member
	n3 := []int64{1, 2, 3}
	lists = append(lists, member{name: "[]"})
	sets = append(sets, member{name: "{}"})
	maps = append(maps, member{name: "{}"})
	for i, a := range n3[:2] {
		lists = append(lists, member{fmt.Sprintf("[%d]", a), [][]*Val{{num(a)}}})
		for _, b := range n3[:2] {
			lists = append(lists, member{fmt.Sprintf("[%d %d]", a, b), [][]*Val{{num(a)}, {num(b)}}})
			maps = append(maps, member{fmt.Sprintf("{%d:%d}", a, b), [][]*Val{{num(a), num(b)}}})
			maps = append(maps, member{fmt.Sprintf("{1:%d 2:%d}", a, b), [][]*Val{{num(1), num(a)}, {num(2), num(b)}}})
			if a != b {
				maps = append(maps, member{fmt.Sprintf("{1:%d 3:%d}", a, b), [][]*Val{{num(3), num(b)}, {num(1), num(a)}}})
			}
		}
		_ = i
	}
	for i, a := range n3 {
		sets = append(sets, member{fmt.Sprintf("{%d}", a), [][]*Val{{num(a)}}})
		for _, b := range n3[i+1:] {
			sets = append(sets, member{fmt.Sprintf("{%d %d}", a, b), [][]*Val{{num(a)}, {num(b)}}})
		}
	}
	for _, fam := range []struct {
		name  string
		code  int64
		ctor  string
		types []*Val
		add   string
		ms    []member
	}{
		{"LIST", 15, "NewTList", []*Val{ty(8)}, "Push", lists},
		{"SET", 14, "NewTSet", []*Val{ty(8)}, "Add", sets},
		{"MAP", 13, "NewTMap", []*Val{ty(8), ty(8)}, "Set", maps},
	} {
		st := base
		var vs []*Val
		for _, m := range fam.ms {
			v, s, ok := l.build(st, fam.ctor, fam.types, fam.add, m.args...)
			if !ok {
				return
			}
			st = s
			vs = append(vs, mk(OIface, tAny, "", unwrapAny(v)))
		}
		f := c.prog.MethodByName(tt, "Compare")
		n := len(vs)
		got := make([][]int, n)
		for i := range vs {
			got[i] = make([]int, n)
			for j := range vs {
				key := fmt.Sprintf("%s %s and %s", fam.name, fam.ms[i].name, fam.ms[j].name)
				first := true
				for _, o := range l.run(key, f, st, ty(fam.code), vs[i], vs[j]) {
					if !l.alive(key, o) {
						continue
					}
					r, ok := o.st.facts.simpConst(o.rets[0]).i64()
					ok = ok && o.st.facts.eval(o.rets[1]) > 0 && r >= -1 && r <= 1
					if !c.ob(l.rule, key, ok && (r == 0) == (i == j), "Compare gives %v, %v; must be 0 only for equal values; %s", o.rets[0], o.rets[1], c.descOutcome(o)) {
						return
					}
					c.ob(l.rule, key, first || got[i][j] == int(r), "the order depends on more than the two values")
					got[i][j], first = int(r), false
				}
			}
		}
		for i := range vs {
			for j := range vs {
				c.ob(l.rule, fam.name+" antisymmetry", got[i][j] == -got[j][i], "%s and %s compare %d one way and %d the other", fam.ms[i].name, fam.ms[j].name, got[i][j], got[j][i])
				if si, sj := len(fam.ms[i].args), len(fam.ms[j].args); si != sj {
					c.ob(l.rule, fam.name+" by size", got[i][j] == sgn(si-sj), "%s and %s compare %d", fam.ms[i].name, fam.ms[j].name, got[i][j])
				}
				for k := range vs {
					if got[i][j] < 0 && got[j][k] < 0 {
						c.ob(l.rule, fam.name+" transitivity", got[i][k] < 0, "%s < %s < %s, but the first and the last compare %d", fam.ms[i].name, fam.ms[j].name, fam.ms[k].name, got[i][k])
					}
				}
			}
		}
	}
}

// orderArrays compares slices of up to three elements whose first difference is at each place.
func (c *Ctx) orderArrays(l *lab, base *State) {
	tt := c.prog.Type("TType")
	i32 := types.Typ[types.Int32]
	type form struct {
		name  string
		elem  types.Type
		boxed bool
		run   func(key string, st *State, a, b *Val) []Outcome
	}
	forms := []form{}
	if f := c.prog.Func("CompareStringArray"); f != nil && len(f.Params) == 2 {
		forms = append(forms, form{"CompareStringArray", tString, false, func(key string, st *State, a, b *Val) []Outcome { return l.run(key, f, st, a, b) }})
	}
	if f := c.prog.MethodByName(tt, "CompareValueArrays"); f != nil && len(f.Params) == 3 {
		for code, t := range map[int64]types.Type{8: i32, 11: tString, 10: types.Typ[types.Int64], 3: tByte} {
			p := mkIntT(tt, code)
			forms = append(forms, form{"CompareValueArrays of " + t.String(), t, true, func(key string, st *State, a, b *Val) []Outcome { return l.run(key, f, st, p, a, b) }})
		}
	}
	for _, f := range forms {
		mkArr := func(tag string, n int) (arr *Val, keys []*Val) {
			var vs []*Val
			var ks []byte
			for i := 0; i < n; i++ {
				a := atom(f.elem, fmt.Sprintf("%s%d", tag, i))
				keys = append(keys, a)
				if f.boxed {
					a = mk(OIface, tAny, "", a)
				}
				vs = append(vs, a)
				ks = append(ks, 'e')
			}
			t := f.elem
			if f.boxed {
				t = tAny
			}
			return mkSeq(types.NewSlice(t), vs, ks), keys
		}
		check := func(key string, st *State, a, b *Val, rel int) {
			for _, o := range f.run(key, st, a, b) {
				if l.alive(key, o) {
					x, ok := o.st.facts.simpConst(o.rets[0]).i64()
					good := ok && sgn(int(x)) == rel && (len(o.rets) < 2 || o.st.facts.eval(o.rets[1]) > 0)
					c.ob(l.rule, key, good, "gives %v; must be %d; %s", o.rets, rel, c.descOutcome(o))
				}
			}
		}
		for n := 0; n <= 3; n++ {
			for m := 0; m <= 3; m++ {
				a, ka := mkArr("a", n)
				b, kb := mkArr("b", m)
				key := fmt.Sprintf("%s with %d and %d elements", f.name, n, m)
				if n != m {
					check(key, base, a, b, sgn(n-m))
					continue
				}
				for k := 0; k <= n; k++ {
					for _, rel := range []int{-1, 1} {
						st := base.clone()
						for i := 0; i < k; i++ {
							relate(st, ka[i], kb[i], 0)
						}
						if k == n {
							check(key+", all equal", st, a, b, 0)
							break
						}
						relate(st, ka[k], kb[k], rel)
						check(fmt.Sprintf("%s, %d equal", key, k), st, a, b, rel)
					}
				}
			}
		}
	}
}
