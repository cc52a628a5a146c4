package main

// C24, C25, C26: lists, sets and maps as abstract data types, over histories
// of calls. Each history is compared with a model that works on the symbols
// the elements are named by.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C24"] = &check{run: runC24, min: 500,
		rule: "after every history of calls a list has the elements a sequence has after the same edits, by Len, At and Iter (which ends); Contains tells whether one of them compares equal; Less compares two of them; what is put in is coerced to the element type or refused without effect; the first element gives a list without element type its type",
		expl: "Path-sensitive abstract interpretation of call histories on a list against a model sequence: every history of two edits, with every index in range, on lists of 0 to 3 symbolic elements of every thrift type.",
		asm:  []string{"indexes are in range"},
	}
	checks["C25"] = &check{run: runC25, min: 500,
		rule: "after every history of Add and Remove a set has each added and not since removed element once, counting elements that compare equal as one, by Len, Values, Front to Back, Back to Front and Contains; what is added is coerced to the element type or refused without effect; the first element gives a set without element type its type",
		expl: "Path-sensitive abstract interpretation of histories of up to three calls over three symbolic elements in every relative order, for every thrift type, against a model set of equivalence classes.",
		asm:  []string{"floating-point elements are not NaN"},
	}
	checks["C26"] = &check{run: runC26, min: 500,
		rule: "after every history of Set a map has the last value set for each key, counting keys that compare equal as one, by Get, Contains, Len, Keys, Values, Iter, KeyIter and ValueIter (which end); Keys and Values list the entries in one order; keys and values are coerced to the map's types, or the call has no effect; the first entry gives a map without types its types",
		expl: "Path-sensitive abstract interpretation of histories of up to three calls over three symbolic keys in every relative order, for every thrift type of key and of value, with Go maps iterated in every order, against a model map of equivalence classes.",
		asm:  []string{"floating-point keys are not NaN"},
	}
}

// user calls a driver of the user package.
func (l *lab) user(key, name string, st *State, args ...*Val) []Outcome {
	if !l.c.need("the public interface of containers", l.c.prog.User != nil) {
		return nil
	}
	as := append([]*Val(nil), args...)
	for i, a := range as {
		if a.op == OIface {
			as[i] = unwrapAny(a)
			as[i] = mk(OIface, tAny, "", as[i])
		}
	}
	return l.run(key, l.c.prog.User.Func(name), st, as...)
}

// elements of a slice of known length, nil when it is not known.
func (l *lab) items(st *State, v *Val) ([]*Val, bool) {
	n, ok := st.facts.simpConst(mkLen(v)).i64()
	if !ok {
		return nil, false
	}
	var r []*Val
	cur := l.in.content(st, v)
	for i := int64(0); i < n; i++ {
		r = append(r, st.facts.simp(seqIndex(cur, mkInt(i), tAny)))
	}
	return r, true
}

// is tells whether a stored value is the given element.
func (l *lab) is(st *State, k elemKind, v *Val, e elem) bool {
	x := st.facts.simp(unwrapAny(v))
	want := unwrapAny(e.val)
	if x == want {
		return true
	}
	if k.goT == nil || x.typ == nil || !types.Identical(x.typ, want.typ) || v.op != OIface {
		return false
	}
	if k.name == "BINARY" {
		return st.facts.eval(mkEq(l.in.conv(st, x, tString), e.key)) > 0
	}
	return st.facts.eval(mkEq(x, e.key)) > 0
}

func (l *lab) isOneOf(st *State, k elemKind, v *Val, es []elem, ranks []int, rank int) bool {
	for i, e := range es {
		if ranks[i] == rank && l.is(st, k, v, e) {
			return true
		}
	}
	return false
}

func show(vs []*Val) string {
	var s []string
	for _, v := range vs {
		s = append(s, fmt.Sprint(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func ctorArgs(tt types.Type, n int, code int64) []*Val {
	var r []*Val
	for i := 0; i < n; i++ {
		r = append(r, mkIntT(tt, code))
	}
	return append(r, mkInt(0))
}

// offers are values of different Go types to put where a value of a type is expected.
func (l *lab) offers() []*Val {
	i := atom(tInt, "offered")
	return []*Val{
		mk(OIface, tAny, "", i),
		mk(OIface, tAny, "", atom(tBool, "flag")),
		mk(OIface, tAny, "", mkStr("12")),
		mk(OIface, tAny, "", mkStr("no number")),
		mk(OIface, tAny, "", mkSeq(types.NewSlice(tByte), []*Val{mkIntT(tByte, 49)}, []byte("e"))),
		mk(OIface, tAny, "", seqAtom(types.NewSlice(tAny), "junk", atom(tInt, "n"))),
	}
}

// coerce runs CoerceData: the states with what it gives.
func (l *lab) coerce(key string, st *State, code int64, v *Val) []Outcome {
	tt := l.c.prog.Type("TType")
	var r []Outcome
	for _, o := range l.run(key, l.c.prog.MethodByName(tt, "CoerceData"), st, mkIntT(tt, code), v) {
		if o.kind == XReturn && o.st.facts.eval(o.rets[1]) != 0 {
			r = append(r, o)
		}
	}
	return r
}

func (l *lab) typeOf(key string, st *State, v *Val) []Outcome {
	return l.fn("TypeFromValue", st, v)
}

// same tells that a stored value is what a coercion of the same value gave.
func (l *lab) sameStored(st *State, a, b *Val) bool {
	x, y := st.facts.simp(unwrapAny(a)), st.facts.simp(unwrapAny(b))
	if x == y {
		return true
	}
	if x.typ != nil && y.typ != nil && isByteSlice(x.typ) && isByteSlice(y.typ) {
		return st.facts.eval(mkEq(l.in.conv(st, x, tString), l.in.conv(st, y, tString))) > 0
	}
	return x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && st.facts.eval(mkEq(x, y)) > 0
}

// ---------------------------------------------------------------- C24

type listOp struct {
	name string
	fn   string
	i, j int
	x    int // element put in, -1 for none
	do   func(s []int) []int
}

// listOps lists the edits of a list of n elements with every index in range.
func listOps(n, x int) []listOp {
	cp := func(s []int) []int { return append([]int(nil), s...) }
	r := []listOp{{"Push", "ListPush", -1, -1, x, func(s []int) []int { return append(cp(s), x) }}}
	if n > 0 {
		r = append(r, listOp{"Pop", "ListPop", -1, -1, -1, func(s []int) []int { return cp(s[:len(s)-1]) }})
	}
	for i := 0; i <= n; i++ {
		i := i
		r = append(r, listOp{fmt.Sprintf("Insert %d", i), "ListInsert", i, -1, x, func(s []int) []int {
			return append(append(cp(s[:i]), x), s[i:]...)
		}})
		r = append(r, listOp{fmt.Sprintf("Set %d", i), "ListSet", i, -1, x, func(s []int) []int {
			t := cp(s)
			if i == len(t) {
				return append(t, x)
			}
			t[i] = x
			return t
		}})
	}
	for i := 0; i < n; i++ {
		i := i
		r = append(r, listOp{fmt.Sprintf("Delete %d", i), "ListDelete", i, -1, -1, func(s []int) []int { return append(cp(s[:i]), s[i+1:]...) }})
		for j := 0; j < n; j++ {
			j := j
			r = append(r, listOp{fmt.Sprintf("Swap %d %d", i, j), "ListSwap", i, j, -1, func(s []int) []int {
				t := cp(s)
				t[i], t[j] = t[j], t[i]
				return t
			}})
		}
	}
	return r
}

func runC24(c *Ctx) {
	l := c.collLab("list")
	tt := c.prog.Type("TType")
	if !c.need("type TType and the public interface of containers", tt != nil && c.prog.User != nil) {
		return
	}
	base := l.in.start()
	names := []string{"a", "b", "c", "d", "e"}
	for _, k := range elemKinds() {
		es, st, ok := l.elems(base, k, names...)
		if !ok {
			continue
		}
		o, ok := l.one("NewTList", l.fn("NewTList", st, mkIntT(tt, k.code), mkInt(0)))
		if !ok {
			continue
		}
		list := o.rets[0]
		word := func(s []int) string {
			t := ""
			for _, x := range s {
				t += names[x]
			}
			return t
		}
		// observe compares the list with the model sequence
		observe := func(key string, st *State, s []int) {
			for _, how := range []string{"ListAt", "ListIter"} {
				for _, o := range l.user(key, how, st, list) {
					if !l.alive(key, o) {
						continue
					}
					got, ok := l.items(o.st, o.rets[0])
					good := ok && len(got) == len(s)
					for i := range s {
						good = good && l.is(o.st, k, got[i], es[s[i]])
					}
					c.ob(l.rule, key, good, "%s gives %s where the list is %q", how, show(got), word(s))
				}
			}
			for _, o := range l.user(key, "ListLen", st, list) {
				if l.alive(key, o) {
					c.ob(l.rule, key, o.st.facts.eval(mkEq(o.rets[0], mkInt(int64(len(s))))) > 0, "Len gives %v where the list is %q", o.rets[0], word(s))
				}
			}
			for _, o := range l.user(key, "ListType", st, list) {
				if l.alive(key, o) {
					c.ob(l.rule, key, o.st.facts.eval(mkEq(o.rets[0], mkIntT(tt, k.code))) > 0, "ElemType gives %v", o.rets[0])
				}
			}
		}
		step := func(key string, st *State, s []int, op listOp) []*State {
			args := []*Val{list}
			if op.i >= 0 {
				args = append(args, mkInt(int64(op.i)))
			}
			if op.j >= 0 {
				args = append(args, mkInt(int64(op.j)))
			}
			if op.x >= 0 {
				args = append(args, es[op.x].val)
			}
			var r []*State
			for _, o := range l.user(key, op.fn, st, args...) {
				if !l.alive(key, o) {
					continue
				}
				if op.fn == "ListPop" {
					c.ob(l.rule, key, l.is(o.st, k, o.rets[0], es[s[len(s)-1]]), "Pop gives %v where the list is %q", o.rets[0], word(s))
				}
				r = append(r, o.st)
			}
			return r
		}
		sizes := 3
		st = o.st
		var s []int
		for n := 0; ; n++ {
			key := fmt.Sprintf("%s %q", k.name, word(s))
			observe(key, st, s)
			for _, op := range listOps(n, 3) {
				key := key + " " + op.name
				for _, s2 := range step(key, st, s, op) {
					w := op.do(s)
					observe(key, s2, w)
					if k.name != "I32" && k.name != "STRUCT" && k.name != "BINARY" {
						continue
					}
					for _, op2 := range listOps(len(w), 4) {
						key := key + ", " + op2.name
						for _, s3 := range step(key, s2, w, op2) {
							observe(key, s3, op2.do(w))
						}
					}
				}
			}
			if n == sizes {
				break
			}
			nx := step(key+" Push", st, s, listOps(n, n)[0])
			if len(nx) != 1 {
				c.undecided(l.rule, key, "%d ways to push", len(nx))
				break
			}
			st, s = nx[0], append(s, n)
		}
		c.listOrder(l, base, k)
		c.putIn(l, base, k, "NewTList", 1, "ListIter", "ListType", []putter{
			{"Push", "ListPush", nil, 1, func(n int) int { return n }},
			{"Insert 0", "ListInsert", []int64{0}, 1, func(n int) int { return 0 }},
			{"Set 0", "ListSet", []int64{0}, 0, func(n int) int { return 0 }},
			{"Set 1", "ListSet", []int64{1}, 1, func(n int) int { return 1 }},
		})
	}
}

// listOrder checks Contains and Less on elements in every relative order.
func (c *Ctx) listOrder(l *lab, base *State, k elemKind) {
	tt := c.prog.Type("TType")
	es, st, ok := l.elems(base, k, "a", "b", "c")
	if !ok {
		return
	}
	o, ok := l.one("NewTList", l.fn("NewTList", st, mkIntT(tt, k.code), mkInt(0)))
	if !ok {
		return
	}
	list := o.rets[0]
	for _, rk := range weakOrders(3) {
		for _, st := range ordered(o.st, es, rk) {
			key := k.name + " " + orderName(es, rk)
			for n := 0; n <= 2; n++ {
				if n > 0 {
					o, ok := l.one(key, l.user(key, "ListPush", st, list, es[n-1].val))
					if !ok {
						break
					}
					st = o.st
				}
				for i := range es {
					want := -1
					for j := 0; j < n; j++ {
						if rk[j] == rk[i] {
							want = 1
						}
					}
					for _, o := range l.user(key, "ListContains", st, list, es[i].val) {
						if l.alive(key, o) {
							c.ob(l.rule, key+"Contains", o.st.facts.eval(o.rets[0]) == want, "Contains(%s) gives %v in a list of the first %d", es[i].name, o.rets[0], n)
						}
					}
				}
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						want := -1
						if rk[i] < rk[j] {
							want = 1
						}
						for _, o := range l.user(key, "ListLess", st, list, mkInt(int64(i)), mkInt(int64(j))) {
							if l.alive(key, o) {
								c.ob(l.rule, key+"Less", o.st.facts.eval(o.rets[0]) == want, "Less(%d, %d) gives %v", i, j, o.rets[0])
							}
						}
					}
				}
			}
		}
	}
}

// putter is a call that puts one value into a container.
type putter struct {
	name  string
	fn    string
	index []int64
	grow  int
	at    func(n int) int
}

// putIn checks that what is put in is coerced to the element type, and that a
// container without element type takes that of the first element.
func (c *Ctx) putIn(l *lab, base *State, k elemKind, ctor string, ntypes int, read, etype string, ps []putter) {
	tt := c.prog.Type("TType")
	es, st, ok := l.elems(base, k, "a")
	if !ok {
		return
	}
	o, ok := l.one(ctor, l.fn(ctor, st, ctorArgs(tt, ntypes, k.code)...))
	if !ok {
		return
	}
	cont := o.rets[0]
	first, ok := l.one(ctor, l.user(ctor, ps[0].fn, o.st, cont, es[0].val))
	if !ok {
		return
	}
	for vi, v := range l.offers() {
		for _, p := range ps {
			key := fmt.Sprintf("%s %s of value %d", k.name, p.name, vi)
			for _, co := range l.coerce(key, first.st, k.code, v) {
				args := []*Val{cont}
				for _, x := range p.index {
					args = append(args, mkInt(x))
				}
				args = append(args, v)
				for _, o := range l.user(key, p.fn, co.st, args...) {
					if !l.alive(key, o) {
						continue
					}
					for _, q := range l.user(key, read, o.st, cont) {
						if !l.alive(key, q) {
							continue
						}
						got, ok := l.items(q.st, q.rets[0])
						if co.st.facts.eval(co.rets[1]) < 0 {
							c.ob(l.rule, key, ok && len(got) == 1 && l.is(q.st, k, got[0], es[0]), "the value is refused, yet the elements are %s", show(got))
							continue
						}
						if p.at == nil { // a set: the new element is one of them, or equal to the one there
							good := ok && len(got) >= 1 && len(got) <= 2
							found := false
							for _, g := range got {
								found = found || l.sameStored(q.st, g, co.rets[0])
							}
							c.ob(l.rule, key, good && (found || len(got) == 1), "the value is %v as an element, the elements are %s", co.rets[0], show(got))
							continue
						}
						c.ob(l.rule, key, ok && len(got) == 1+p.grow && l.sameStored(q.st, got[p.at(1)], co.rets[0]), "the value is %v as an element, the elements are %s", co.rets[0], show(got))
					}
				}
			}
		}
	}
	// without element type
	for _, none := range []int64{0, 1} {
		for _, p := range ps {
			if len(p.index) > 0 && p.index[0] > 0 {
				continue
			}
			key := fmt.Sprintf("%s %s into a container without element type", k.name, p.name)
			o, ok := l.one(key, l.fn(ctor, st, ctorArgs(tt, ntypes, none)...))
			if !ok {
				continue
			}
			cont := o.rets[0]
			for _, want := range l.typeOf(key, o.st, es[0].val) {
				if want.kind != XReturn {
					continue
				}
				args := []*Val{cont}
				for _, x := range p.index {
					args = append(args, mkInt(x))
				}
				for _, q := range l.user(key, p.fn, want.st, append(args, es[0].val)...) {
					if !l.alive(key, q) {
						continue
					}
					for _, r := range l.user(key, etype, q.st, cont) {
						if l.alive(key, r) {
							c.ob(l.rule, key, r.st.facts.eval(mkEq(r.rets[0], want.rets[0])) > 0, "the element type is %v; must be %v", r.rets[0], want.rets[0])
						}
					}
					for _, r := range l.user(key, read, q.st, cont) {
						if l.alive(key, r) {
							got, ok := l.items(r.st, r.rets[0])
							c.ob(l.rule, key, ok && len(got) == 1, "the elements are %s", show(got))
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C25

func runC25(c *Ctx) {
	l := c.collLab("set")
	tt := c.prog.Type("TType")
	if !c.need("type TType and the public interface of containers", tt != nil && c.prog.User != nil) {
		return
	}
	base := l.in.start()
	for _, k := range elemKinds() {
		es, st0, ok := l.elems(base, k, "a", "b", "c")
		if !ok {
			continue
		}
		depth := 2
		if k.name == "I32" || k.name == "STRING" || k.name == "STRUCT" {
			depth = 3
		}
		o, ok := l.one("NewTSet", l.fn("NewTSet", st0, mkIntT(tt, k.code), mkInt(4)))
		if !ok {
			continue
		}
		set := o.rets[0]
		for _, rk := range weakOrders(3) {
			for _, st := range ordered(o.st, es, rk) {
				on := k.name + " " + orderName(es, rk)
				observe := func(key string, st *State, in map[int]bool) {
					n := 0
					for _, b := range in {
						if b {
							n++
						}
					}
					for _, o := range l.user(key, "SetLen", st, set) {
						if l.alive(key, o) {
							c.ob(l.rule, key, o.st.facts.eval(mkEq(o.rets[0], mkInt(int64(n)))) > 0, "Len gives %v of %d elements", o.rets[0], n)
						}
					}
					for _, how := range []string{"SetValues", "SetForward", "SetBackward"} {
						for _, o := range l.user(key, how, st, set) {
							if !l.alive(key, o) {
								continue
							}
							got, ok := l.items(o.st, o.rets[0])
							good := ok && len(got) == n
							for r, b := range in {
								m := 0
								for _, g := range got {
									if l.isOneOf(o.st, k, g, es, rk, r) {
										m++
									}
								}
								good = good && m == map[bool]int{true: 1}[b]
							}
							c.ob(l.rule, key, good, "%s gives %s", how, show(got))
						}
					}
					for i, e := range es {
						want := -1
						if in[rk[i]] {
							want = 1
						}
						for _, o := range l.user(key, "SetContains", st, set, e.val) {
							if l.alive(key, o) {
								c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == want, "Contains(%s) gives %v", e.name, o.rets[0])
							}
						}
					}
				}
				var rec func(key string, st *State, in map[int]bool, d int)
				rec = func(key string, st *State, in map[int]bool, d int) {
					observe(key, st, in)
					if d == depth {
						return
					}
					for i, e := range es {
						for _, op := range []string{"Add", "Remove"} {
							k2 := key + op + " " + e.name + " "
							in2 := map[int]bool{}
							for r, b := range in {
								in2[r] = b
							}
							in2[rk[i]] = op == "Add"
							for _, o := range l.user(k2, "Set"+op, st, set, e.val) {
								if l.alive(k2, o) {
									rec(k2, o.st, in2, d+1)
								}
							}
						}
					}
				}
				rec(on, st, map[int]bool{}, 0)
				if depth < 3 {
					// all three, then none
					in := map[int]bool{}
					s, key := st, on
					for step := 0; step < 6; step++ {
						i := []int{0, 1, 2, 1, 0, 2}[step]
						op := []string{"Add", "Remove"}[step/3]
						key += op + " " + es[i].name + " "
						o, ok := l.one(key, l.user(key, "Set"+op, s, set, es[i].val))
						if !ok {
							break
						}
						s = o.st
						in[rk[i]] = op == "Add"
						observe(key, s, in)
					}
				}
			}
		}
		c.putIn(l, base, k, "NewTSet", 1, "SetValues", "SetType", []putter{{"Add", "SetAdd", nil, 1, nil}})
	}
}

// ---------------------------------------------------------------- C26

func runC26(c *Ctx) {
	l := c.collLab("map")
	tt := c.prog.Type("TType")
	if !c.need("type TType and the public interface of containers", tt != nil && c.prog.User != nil) {
		return
	}
	base := l.in.start()
	kinds := elemKinds()
	var i32 elemKind
	for _, k := range kinds {
		if k.name == "I32" {
			i32 = k
		}
	}
	for _, k := range kinds {
		c.mapHistories(l, base, k, i32, 3)
		if k.name != "I32" {
			c.mapHistories(l, base, i32, k, 1)
		}
		c.mapPut(l, base, k)
	}
}

func (c *Ctx) mapHistories(l *lab, base *State, kk, vk elemKind, depth int) {
	tt := c.prog.Type("TType")
	ks, st, ok := l.elems(base, kk, "a", "b", "c")
	if !ok {
		return
	}
	vs, st, ok := l.elems(st, vk, "v0", "v1", "v2")
	if !ok {
		return
	}
	o, ok := l.one("NewTMap", l.fn("NewTMap", st, mkIntT(tt, kk.code), mkIntT(tt, vk.code), mkInt(5)))
	if !ok {
		return
	}
	m := o.rets[0]
	for _, rk := range weakOrders(3) {
		for _, st := range ordered(o.st, ks, rk) {
			on := kk.name + "->" + vk.name + " " + orderName(ks, rk)
			observe := func(key string, st *State, in map[int]int) {
				// entries are the model's entries, each once
				entries := func(how string, o Outcome, gk, gv *Val) {
					good := true
					var keys, vals []*Val
					if gk != nil {
						keys, ok = l.items(o.st, gk)
						good = good && ok && len(keys) == len(in)
					}
					if gv != nil {
						vals, ok = l.items(o.st, gv)
						good = good && ok && len(vals) == len(in)
					}
					if good && gk != nil {
						for r, v := range in {
							n := 0
							for i := range keys {
								if l.isOneOf(o.st, kk, keys[i], ks, rk, r) && (gv == nil || l.is(o.st, vk, vals[i], vs[v])) {
									n++
								}
							}
							good = good && n == 1
						}
					}
					if good && gk == nil {
						used := map[int]bool{}
						for _, v := range in {
							hit := false
							for i := range vals {
								if !used[i] && l.is(o.st, vk, vals[i], vs[v]) {
									used[i], hit = true, true
									break
								}
							}
							good = good && hit
						}
					}
					c.ob(l.rule, key, good, "%s gives %s %s", how, show(keys), show(vals))
				}
				for _, o := range l.user(key, "MapLen", st, m) {
					if l.alive(key, o) {
						c.ob(l.rule, key, o.st.facts.eval(mkEq(o.rets[0], mkInt(int64(len(in))))) > 0, "Len gives %v of %d entries", o.rets[0], len(in))
					}
				}
				for _, o := range l.user(key, "MapIter", st, m) {
					if l.alive(key, o) {
						entries("Iter", o, o.rets[0], o.rets[1])
					}
				}
				for _, o := range l.user(key, "MapKeyIter", st, m) {
					if l.alive(key, o) {
						entries("KeyIter", o, o.rets[0], nil)
					}
				}
				for _, o := range l.user(key, "MapValueIter", st, m) {
					if l.alive(key, o) {
						entries("ValueIter", o, nil, o.rets[0])
					}
				}
				for _, o := range l.user(key, "MapKeys", st, m) {
					if !l.alive(key, o) {
						continue
					}
					for _, p := range l.user(key, "MapValues", o.st, m) {
						if l.alive(key, p) {
							entries("Keys and Values", p, o.rets[0], p.rets[0])
						}
					}
				}
				for i, e := range ks {
					want := -1
					v, there := in[rk[i]]
					if there {
						want = 1
					}
					for _, o := range l.user(key, "MapContains", st, m, e.val) {
						if l.alive(key, o) {
							c.ob(l.rule, key, o.st.facts.eval(o.rets[0]) == want, "Contains(%s) gives %v", e.name, o.rets[0])
						}
					}
					for _, o := range l.user(key, "MapGet", st, m, e.val) {
						if l.alive(key, o) {
							good := o.st.facts.eval(o.rets[1]) == want
							if there {
								good = good && l.is(o.st, vk, o.st.facts.simp(o.rets[0]), vs[v])
							}
							c.ob(l.rule, key, good, "Get(%s) gives %v, %v", e.name, o.rets[0], o.rets[1])
						}
					}
				}
			}
			var rec func(key string, st *State, in map[int]int, d int)
			rec = func(key string, st *State, in map[int]int, d int) {
				observe(key, st, in)
				if d == depth {
					return
				}
				for i, e := range ks {
					k2 := key + "Set " + e.name + " "
					in2 := map[int]int{rk[i]: d}
					for r, v := range in {
						if r != rk[i] {
							in2[r] = v
						}
					}
					for _, o := range l.user(k2, "MapSet", st, m, e.val, vs[d].val) {
						if l.alive(k2, o) {
							rec(k2, o.st, in2, d+1)
						}
					}
				}
			}
			rec(on, st, map[int]int{}, 0)
		}
	}
}

// mapPut checks what values of other Go types become as keys and as values.
func (c *Ctx) mapPut(l *lab, base *State, k elemKind) {
	tt := c.prog.Type("TType")
	es, st, ok := l.elems(base, k, "a")
	if !ok {
		return
	}
	num := mk(OIface, tAny, "", mkIntT(types.Typ[types.Int32], 7))
	for vi, v := range l.offers() {
		for _, asKey := range []bool{true, false} {
			key := fmt.Sprintf("%s value %d as %s", k.name, vi, map[bool]string{true: "key", false: "value"}[asKey])
			ts := []*Val{mkIntT(tt, 8), mkIntT(tt, k.code), mkInt(0)}
			args := []*Val{num, v}
			if asKey {
				ts[0], ts[1] = ts[1], ts[0]
				args = []*Val{v, num}
			}
			o, ok := l.one(key, l.fn("NewTMap", st, ts...))
			if !ok {
				continue
			}
			m := o.rets[0]
			for _, co := range l.coerce(key, o.st, k.code, v) {
				for _, s := range l.user(key, "MapSet", co.st, append([]*Val{m}, args...)...) {
					if !l.alive(key, s) {
						continue
					}
					for _, q := range l.user(key, "MapIter", s.st, m) {
						if !l.alive(key, q) {
							continue
						}
						gk, ok1 := l.items(q.st, q.rets[0])
						gv, ok2 := l.items(q.st, q.rets[1])
						if co.st.facts.eval(co.rets[1]) < 0 {
							c.ob(l.rule, key, ok1 && ok2 && len(gk) == 0, "the value is refused, yet there is an entry %s %s", show(gk), show(gv))
							continue
						}
						wk, wv := num, co.rets[0]
						if asKey {
							wk, wv = wv, wk
						}
						c.ob(l.rule, key, ok1 && ok2 && len(gk) == 1 && len(gv) == 1 && l.sameStored(q.st, gk[0], wk) && l.sameStored(q.st, gv[0], wv), "the value is %v; the entry is %s %s", co.rets[0], show(gk), show(gv))
					}
					if asKey && co.st.facts.eval(co.rets[1]) > 0 {
						for _, q := range l.user(key, "MapContains", s.st, m, v) {
							if l.alive(key, q) {
								c.ob(l.rule, key, q.st.facts.eval(q.rets[0]) > 0, "Contains(key just set) gives %v", q.rets[0])
							}
						}
						for _, q := range l.user(key, "MapGet", s.st, m, v) {
							if l.alive(key, q) {
								c.ob(l.rule, key, q.st.facts.eval(q.rets[1]) > 0 && l.sameStored(q.st, q.rets[0], num), "Get(key just set) gives %v, %v", q.rets[0], q.rets[1])
							}
						}
					}
				}
			}
		}
	}
	// without types
	for _, none := range []int64{0, 1} {
		for _, asKey := range []bool{true, false} {
			key := fmt.Sprintf("%s %s of a map without types", k.name, map[bool]string{true: "key", false: "value"}[asKey])
			o, ok := l.one(key, l.fn("NewTMap", st, mkIntT(tt, none), mkIntT(tt, none), mkInt(0)))
			if !ok {
				continue
			}
			m := o.rets[0]
			args := []*Val{num, es[0].val}
			how := "MapValueType"
			if asKey {
				args, how = []*Val{es[0].val, num}, "MapKeyType"
			}
			for _, want := range l.typeOf(key, o.st, es[0].val) {
				if want.kind != XReturn {
					continue
				}
				for _, q := range l.user(key, "MapSet", want.st, append([]*Val{m}, args...)...) {
					if !l.alive(key, q) {
						continue
					}
					for _, r := range l.user(key, how, q.st, m) {
						if l.alive(key, r) {
							c.ob(l.rule, key, r.st.facts.eval(mkEq(r.rets[0], want.rets[0])) > 0, "the type is %v; must be %v", r.rets[0], want.rets[0])
						}
					}
					for _, r := range l.user(key, "MapLen", q.st, m) {
						if l.alive(key, r) {
							c.ob(l.rule, key, r.st.facts.eval(mkEq(r.rets[0], mkInt(1))) > 0, "Len gives %v after one Set", r.rets[0])
						}
					}
				}
			}
		}
	}
}
