package main

// C27: metadata of fields, structs and messages.

import (
	"fmt"
	"go/types"
)

func init() {
	checks["C27"] = &check{run: runC27, min: 150,
		rule: "fields, structs and messages give the name, type and id they were made from; fields are equal when type and id are, and compare by id, then type, then name; a field container finds its fields by id and by name and nothing else, iterates over them in order and ends, is equal to one with the same fields in any order and compares by size, then by its fields in the order of their ids; structs look fields up as their fields do; messages are equal when name, type and sequence id are; the text of a field has its name, type and id",
		expl: "Path-sensitive abstract interpretation over symbolic names, types and ids: every relative order of the parts of two fields and of the ids of two containers of up to two fields, and lookups with a symbolic id or name that is that of one field or of none, in containers of up to three.",
		asm:  []string{"the ids, and the names, of the fields of one container differ; names are not empty"},
	}
}

func runC27(c *Ctx) {
	l := c.collLab("metadata")
	tt, ft := c.prog.Type("TType"), c.prog.Type("TField")
	if !c.need("types TType and TField and the public interface of metadata", tt != nil && ft != nil && c.prog.User != nil) {
		return
	}
	base := l.in.start()
	eq := func(st *State, v, w *Val) bool {
		v, w = st.facts.simp(v), st.facts.simp(w)
		return v == w || st.facts.eval(mkEq(v, w)) > 0
	}
	ref := func(v *Val) *Val { return unwrapAny(v) }
	// expect checks every path of a call
	expect := func(key, fn string, st *State, good func(o Outcome) (bool, string), args ...*Val) {
		for _, o := range l.user(key, fn, st, args...) {
			if l.alive(key, o) {
				ok, why := good(o)
				c.ob(l.rule, key, ok, "%s gives %v; %s; %s", fn, o.rets, why, c.descOutcome(o))
			}
		}
	}
	is := func(w *Val) func(o Outcome) (bool, string) {
		return func(o Outcome) (bool, string) { return eq(o.st, o.rets[0], w), fmt.Sprintf("must be %v", w) }
	}
	truth := func(b bool) func(o Outcome) (bool, string) {
		return func(o Outcome) (bool, string) {
			return o.st.facts.eval(o.rets[0]) == map[bool]int{true: 1, false: -1}[b], fmt.Sprintf("must be %v", b)
		}
	}
	sign := func(n int) func(o Outcome) (bool, string) {
		return func(o Outcome) (bool, string) {
			x, ok := o.st.facts.simpConst(o.rets[0]).i64()
			return ok && x == int64(n) && o.st.facts.eval(o.rets[1]) > 0, fmt.Sprintf("must be %d, true", n)
		}
	}
	refused := func(o Outcome) (bool, string) { return o.st.facts.eval(o.rets[1]) < 0, "must be refused" }
	same := func(f *Val) func(o Outcome) (bool, string) {
		return func(o Outcome) (bool, string) {
			return ref(o.st.facts.simp(o.rets[0])) == ref(f), fmt.Sprintf("must be %v", f)
		}
	}
	type field struct{ f, name, typ, id *Val }
	mkField := func(st *State, tag string, name, typ, id *Val) (field, *State, bool) {
		if name == nil {
			name = atom(tString, "name"+tag)
		}
		if typ == nil {
			typ = atom(tt, "type"+tag)
		}
		if id == nil {
			id = atom(tInt, "id"+tag)
		}
		o, ok := l.one("NewTField", l.fn("NewTField", st, name, typ, id))
		if !ok {
			return field{}, st, false
		}
		return field{o.rets[0], name, typ, id}, o.st, true
	}
	any := func(v *Val) *Val { return mk(OIface, tAny, "", ref(v)) }

	// one field, two fields
	fa, st, ok1 := mkField(base, "A", nil, nil, nil)
	if !ok1 {
		return
	}
	expect("field name", "FieldName", st, is(fa.name), fa.f)
	expect("field type", "FieldType", st, is(fa.typ), fa.f)
	expect("field id", "FieldId", st, is(fa.id), fa.f)
	for _, t := range collTypes {
		if t.name == "UTF8" {
			continue
		}
		key := "text of a field of type " + t.name
		f, s, ok := mkField(base, "A", nil, mkIntT(tt, t.code), nil)
		if !ok {
			continue
		}
		name, ok := l.one(key, l.run(key, c.prog.MethodByName(tt, "String"), s, mkIntT(tt, t.code)))
		if !ok {
			continue
		}
		expect(key, "FieldString", name.st, func(o Outcome) (bool, string) {
			has := func(v *Val) bool {
				for _, p := range textParts(o.rets[0]) {
					if p == v {
						return true
					}
				}
				return false
			}
			tn, _ := name.rets[0].strConst()
			in := false
			for _, p := range textParts(o.rets[0]) {
				if s, ok := p.strConst(); ok && tn != "" && containsStr(s, tn) {
					in = true
				}
			}
			return has(f.name) && in && has(decTerm(f.id)), "must have the name, the type's name " + tn + " and the id in decimal"
		}, f.f)
	}
	for _, ri := range weakOrders(2) {
		for _, rt := range [][2]int64{{8, 11}, {11, 8}, {2, 200}, {200, 2}, {12, 12}} {
			for _, rn := range weakOrders(2) {
				fa, s, ok1 := mkField(base, "A", nil, mkIntT(tt, rt[0]), nil)
				fb, s, ok2 := mkField(s, "B", nil, mkIntT(tt, rt[1]), nil)
				if !ok1 || !ok2 {
					continue
				}
				s = s.clone()
				di, dt, dn := sgn(ri[0]-ri[1]), sgn(int(rt[0]-rt[1])), sgn(rn[0]-rn[1])
				if !relate(s, fa.id, fb.id, di) || !relate(s, fa.name, fb.name, dn) {
					continue
				}
				key := fmt.Sprintf("fields with id %+d types %d %d name %+d", di, rt[0], rt[1], dn)
				want := di
				if want == 0 {
					want = dt
				}
				if want == 0 {
					want = dn
				}
				expect(key, "FieldCompare", s, sign(want), fa.f, any(fb.f))
				expect(key, "FieldEquals", s, truth(di == 0 && dt == 0), fa.f, any(fb.f))
			}
		}
	}
	if o, ok := l.one("NewTFieldDefault", l.fn("NewTFieldDefault", base)); ok {
		expect("field standing for none", "FieldName", o.st, is(mkStr("")), o.rets[0])
		expect("field standing for none", "FieldType", o.st, is(mkIntT(tt, 0)), o.rets[0])
		expect("field standing for none", "FieldId", o.st, is(mkInt(0)), o.rets[0])
	}
	if o, ok := l.one("NoField", l.run("NoField", c.prog.User.Func("NoField"), base)); ok {
		expect("field standing for none", "FieldName", o.st, is(mkStr("")), o.rets[0])
		expect("field standing for none", "FieldType", o.st, is(mkIntT(tt, 0)), o.rets[0])
		expect("field standing for none", "FieldId", o.st, is(mkInt(0)), o.rets[0])
	}
	expect("field and nil", "FieldCompare", st, sign(1), fa.f, mkNil(tAny))
	expect("field and nil", "FieldEquals", st, truth(false), fa.f, mkNil(tAny))
	expect("field and a number", "FieldCompare", st, refused, fa.f, mk(OIface, tAny, "", fa.id))
	expect("field and a number", "FieldEquals", st, truth(false), fa.f, mk(OIface, tAny, "", fa.id))

	// containers
	anon, ok := l.one("NewTFieldDefault", l.fn("NewTFieldDefault", base))
	if !ok {
		return
	}
	seq := func(fs []field) *Val {
		var vs []*Val
		var ks []byte
		for _, f := range fs {
			v := f.f
			if v.op != OIface || !types.Identical(v.typ, ft) {
				v = mk(OIface, ft, "", ref(v))
			}
			vs = append(vs, v)
			ks = append(ks, 'e')
		}
		return mkSeq(types.NewSlice(ft), vs, ks)
	}
	tag := []string{"1", "2", "3"}
	for n := 0; n <= 3; n++ {
		for ki, order := range append(perms(n), perms(n)...) {
			kind := "container"
			if ki >= len(perms(n)) {
				kind = "struct"
			}
			var fs []field
			st := base
			ok := true
			for i := 0; i < n && ok; i++ {
				var f field
				f, st, ok = mkField(st, tag[i], nil, nil, nil)
				fs = append(fs, f)
			}
			if !ok {
				continue
			}
			st = st.clone()
			for i := range fs {
				st.facts.assume(mkEq(mkLen(fs[i].name), mkInt(0)), false)
				for j := 0; j < i; j++ {
					relate(st, fs[j].id, fs[i].id, sgn(order[j]-order[i]))
					st.facts.assume(mkEq(fs[j].name, fs[i].name), false)
				}
			}
			key := fmt.Sprintf("%s of %d fields in order %v", kind, n, order)
			var cont *Val
			if kind == "struct" {
				sn := atom(tString, "structname")
				o, ok := l.one(key, l.fn("NewTStruct", st, sn, seq(fs)))
				if !ok {
					continue
				}
				cont, st = o.rets[0], o.st
				expect(key+" name", "StructName", st, is(sn), cont)
				expect(key+" thrift name", "StructThriftName", st, is(sn), cont)
				expect(key+" text", "StructString", st, is(sn), cont)
				for _, o := range l.user(key, "StructFields", st, cont) {
					if l.alive(key, o) {
						expect(key+" fields", "FieldsIter", o.st, func(o Outcome) (bool, string) {
							got, ok := l.items(o.st, o.rets[0])
							good := ok && len(got) == len(fs)
							for i := range fs {
								good = good && ref(got[i]) == ref(fs[i].f)
							}
							return good, "must be the fields in order"
						}, o.rets[0])
					}
				}
			} else {
				o, ok := l.one(key, l.fn("NewTFieldContainer", st, seq(fs)))
				if !ok {
					continue
				}
				cont, st = o.rets[0], o.st
			}
			expect(key+" Len", "FieldsLen", st, is(mkInt(int64(n))), cont)
			expect(key+" Iter", "FieldsIter", st, func(o Outcome) (bool, string) {
				got, ok := l.items(o.st, o.rets[0])
				good := ok && len(got) == len(fs)
				for i := range fs {
					good = good && ref(got[i]) == ref(fs[i].f)
				}
				return good, "must be the fields in order"
			}, cont)
			qi, qn := atom(tInt, "askedid"), atom(tString, "askedname")
			q16 := atom(types.Typ[types.Int16], "askedid16")
			for i := 0; i <= n; i++ {
				s := st.clone()
				for j := range fs {
					s.facts.assume(mkEq(fs[j].id, qi), j == i)
					s.facts.assume(mkEq(fs[j].name, qn), j == i)
					s.facts.assume(mkEq(fs[j].id, convert(q16, tInt)), j == i)
				}
				key := fmt.Sprintf("%s asked for number %d", key, i)
				f, name, id := anon.rets[0], mkStr(""), mkInt(-1)
				if i < n {
					f, name, id = fs[i].f, fs[i].name, fs[i].id
				}
				expect(key, "FieldsById", s, same(f), cont, qi)
				expect(key, "FieldsAt", s, same(f), cont, qi)
				expect(key, "FieldsByName", s, same(f), cont, qn)
				expect(key, "FieldsNameOf", s, is(name), cont, qi)
				expect(key, "FieldsIdOf", s, is(id), cont, qn)
				expect(key+" Contains id", "FieldsContains", s, truth(i < n), cont, mk(OIface, tAny, "", qi))
				expect(key+" Contains id", "FieldsContains", s, truth(i < n), cont, mk(OIface, tAny, "", q16))
				expect(key+" Contains name", "FieldsContains", s, truth(i < n), cont, mk(OIface, tAny, "", qn))
				if i < n {
					expect(key+" Contains field", "FieldsContains", s, truth(true), cont, any(fs[i].f))
				}
			}
			f4, s4, ok := mkField(st, "4", nil, nil, nil)
			if ok {
				s4 = s4.clone()
				for _, f := range fs {
					s4.facts.assume(mkEq(f.id, f4.id), false)
				}
				expect(key+" Contains another field", "FieldsContains", s4, truth(false), cont, any(f4.f))
			}
			if kind != "container" {
				continue
			}
			expect(key+" and nil", "FieldsCompare", st, sign(1), cont, mkNil(tAny))
			expect(key+" and nil", "FieldsEquals", st, truth(false), cont, mkNil(tAny))
			expect(key+" and itself", "FieldsCompare", st, sign(0), cont, any(cont))
			expect(key+" and itself", "FieldsEquals", st, truth(true), cont, any(cont))
			expect(key+" and a number", "FieldsCompare", st, refused, cont, mk(OIface, tAny, "", fa.id))
			expect(key+" and a number", "FieldsEquals", st, truth(false), cont, mk(OIface, tAny, "", fa.id))
			// the same fields in every order
			for _, perm := range perms(n) {
				var gs []field
				for _, i := range perm {
					gs = append(gs, fs[i])
				}
				key := fmt.Sprintf("%s and the same in order %v", key, perm)
				o, ok := l.one(key, l.fn("NewTFieldContainer", st, seq(gs)))
				if !ok {
					continue
				}
				expect(key, "FieldsEquals", o.st, truth(true), cont, any(o.rets[0]))
				expect(key, "FieldsCompare", o.st, sign(0), cont, any(o.rets[0]))
				if n > 0 {
					o, ok := l.one(key, l.fn("NewTFieldContainer", o.st, seq(gs[1:])))
					if ok {
						expect(key+" less one", "FieldsEquals", o.st, truth(false), cont, any(o.rets[0]))
						expect(key+" less one", "FieldsCompare", o.st, sign(1), cont, any(o.rets[0]))
						expect(key+" plus one", "FieldsEquals", o.st, truth(false), o.rets[0], any(cont))
						expect(key+" plus one", "FieldsCompare", o.st, sign(-1), o.rets[0], any(cont))
					}
				}
			}
		}
	}
	// two containers of two fields whose ids are in any relative order
	i32 := mkIntT(tt, 8)
	for _, rk := range weakOrders(4) {
		if rk[0] == rk[1] || rk[2] == rk[3] {
			continue
		}
		st, ok := base, true
		var fs []field
		for i := 0; i < 4 && ok; i++ {
			var f field
			f, st, ok = mkField(st, fmt.Sprint(i), mkStr("n"), i32, nil)
			fs = append(fs, f)
		}
		if !ok {
			break
		}
		st = st.clone()
		for i := range fs {
			for j := 0; j < i; j++ {
				relate(st, fs[j].id, fs[i].id, sgn(rk[j]-rk[i]))
			}
		}
		key := fmt.Sprintf("containers with ids ordered %v", rk)
		o1, ok1 := l.one(key, l.fn("NewTFieldContainer", st, seq(fs[:2])))
		if !ok1 {
			continue
		}
		o2, ok2 := l.one(key, l.fn("NewTFieldContainer", o1.st, seq(fs[2:])))
		if !ok2 {
			continue
		}
		lo := func(a, b int) (int, int) {
			if a > b {
				return b, a
			}
			return a, b
		}
		a0, a1 := lo(rk[0], rk[1])
		b0, b1 := lo(rk[2], rk[3])
		want := sgn(a0 - b0)
		if want == 0 {
			want = sgn(a1 - b1)
		}
		expect(key, "FieldsCompare", o2.st, sign(want), o1.rets[0], any(o2.rets[0]))
		expect(key, "FieldsEquals", o2.st, truth(want == 0), o1.rets[0], any(o2.rets[0]))
	}
	for _, fn := range []string{"NoStruct", "NewTStructEmpty"} {
		var outs []Outcome
		if fn == "NoStruct" {
			outs = l.user(fn, fn, base)
		} else {
			outs = l.fn(fn, base, mkStr(""))
		}
		o, ok := l.one(fn, outs)
		if !ok {
			continue
		}
		key := "struct standing for none"
		for _, f := range []string{"StructName", "StructThriftName", "StructString"} {
			expect(key, f, o.st, is(mkStr("")), o.rets[0])
		}
		for _, q := range l.user(key, "StructFields", o.st, o.rets[0]) {
			if l.alive(key, q) {
				for _, r := range l.meth(q.st, q.rets[0], "Len") {
					if l.alive(key, r) {
						c.ob(l.rule, key, r.st.facts.eval(mkEq(r.rets[0], mkInt(0))) > 0, "it has %v fields", r.rets[0])
					}
				}
			}
		}
	}
	// attributes of a struct without any, and those of a user's struct
	if o, ok := l.one("NewTStructEmpty", l.fn("NewTStructEmpty", base, mkStr("s"))); ok {
		nothing := func(o Outcome) (bool, string) { return o.st.facts.simp(o.rets[0]).isNil(), "must be nil" }
		expect("attributes of plain structs", "StructAttr", o.st, nothing, o.rets[0], atom(tInt, "id"))
		expect("attributes of plain structs", "StructAttrName", o.st, nothing, o.rets[0], atom(tString, "name"))
	}
	// messages
	if mt := c.prog.Type("TMessageType"); c.need("type TMessageType", mt != nil) {
		type msg struct{ m, name, typ, seq *Val }
		st := base
		var ms []msg
		for _, t := range []string{"1", "2"} {
			m := msg{nil, atom(tString, "name"+t), atom(mt, "type"+t), atom(tInt, "seq"+t)}
			o, ok := l.one("NewTMessage", l.fn("NewTMessage", st, m.name, m.typ, m.seq))
			if !ok {
				return
			}
			m.m, st = o.rets[0], o.st
			ms = append(ms, m)
		}
		for _, fn := range []string{"NewTMessageDefault", "NoMessage"} {
			var outs []Outcome
			if fn == "NoMessage" {
				outs = l.user(fn, fn, base)
			} else {
				outs = l.fn(fn, base)
			}
			if o, ok := l.one(fn, outs); ok {
				expect("message standing for none", "MessageName", o.st, is(mkStr("")), o.rets[0])
				expect("message standing for none", "MessageType", o.st, is(mkIntT(mt, 0)), o.rets[0])
				expect("message standing for none", "MessageSeq", o.st, is(mkInt(0)), o.rets[0])
			}
		}
		expect("message name", "MessageName", st, is(ms[0].name), ms[0].m)
		expect("message type", "MessageType", st, is(ms[0].typ), ms[0].m)
		expect("text of a message", "MessageText", st, func(o Outcome) (bool, string) {
			for _, v := range []*Val{ms[0].name, decTerm(ms[0].typ), decTerm(ms[0].seq)} {
				in := false
				for _, p := range textParts(o.rets[0]) {
					in = in || p == v
				}
				if !in {
					return false, fmt.Sprintf("lacks %v", v)
				}
			}
			return true, ""
		}, ms[0].m)
		expect("message sequence id", "MessageSeq", st, is(ms[0].seq), ms[0].m)
		for i := 0; i < 8; i++ {
			s := st.clone()
			s.facts.assume(mkEq(ms[0].name, ms[1].name), i&1 != 0)
			s.facts.assume(mkEq(ms[0].typ, ms[1].typ), i&2 != 0)
			s.facts.assume(mkEq(ms[0].seq, ms[1].seq), i&4 != 0)
			expect(fmt.Sprintf("messages with name, type, sequence id the same: %v %v %v", i&1 != 0, i&2 != 0, i&4 != 0), "MessageEquals", s, truth(i == 7), ms[0].m, ms[1].m)
		}
	}
}

func perms(n int) [][]int {
	r := [][]int{nil}
	for i := 0; i < n; i++ {
		var t [][]int
		for _, p := range r {
			for k := 0; k <= len(p); k++ {
				q := append(append(append([]int(nil), p[:k]...), i), p[k:]...)
				t = append(t, q)
			}
		}
		r = t
	}
	return r
}

// textParts are the pieces a text is put together from.
func textParts(v *Val) []*Val {
	if v.op == OConcat || v.op == OSeq && isString(v.typ) {
		var r []*Val
		for _, a := range v.args {
			r = append(r, textParts(a)...)
		}
		return r
	}
	return []*Val{v}
}
