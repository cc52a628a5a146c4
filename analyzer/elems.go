package main

// Symbolic elements of each thrift type with a chosen order between them, for
// the checks on ordering and containers.

import (
	"fmt"
	"go/types"
	"math/big"
)

type elemKind struct {
	name  string
	code  int64
	goT   types.Type // Go type of a stored value; nil for structs and containers
	inner types.Type // Go type of the atom the order of two values rests on
}

func elemKinds() []elemKind {
	i32 := types.Type(types.Typ[types.Int32])
	var r []elemKind
	for _, t := range collTypes {
		k := elemKind{t.name, t.code, t.goT, t.goT}
		switch t.name {
		case "STRUCT":
			k.inner = tString
		case "LIST", "SET", "MAP":
			k.inner = i32
		}
		r = append(r, k)
	}
	return r
}

// elem is one value: what is passed in and the atom its order rests on.
type elem struct {
	name string
	val  *Val // interface value
	key  *Val
}

// elems builds n values of a kind on a state. For BOOL only false and true exist.
func (l *lab) elems(st *State, k elemKind, names ...string) ([]elem, *State, bool) {
	c := l.c
	var r []elem
	one := func(key string, outs []Outcome) ([]*Val, bool) {
		if len(outs) != 1 || outs[0].kind != XReturn {
			c.undecided(l.rule, key, "%d outcomes building a %s", len(outs), k.name)
			return nil, false
		}
		st = outs[0].st
		return outs[0].rets, true
	}
	tt := c.prog.Type("TType")
	for _, n := range names {
		a := atom(k.inner, n)
		e := elem{name: n, key: a}
		switch {
		case k.name == "BINARY":
			ln := atom(tInt, "len("+n+")")
			st = st.clone()
			st.facts.refine(ln, Range{big.NewInt(0), maxLen})
			v := seqAtom(k.goT, n, ln)
			e.val, e.key = mk(OIface, tAny, "", v), l.in.conv(st, v, tString)
		case k.goT != nil:
			e.val = mk(OIface, tAny, "", a)
		case k.name == "STRUCT":
			rs, ok := one("NewTStructEmpty", l.fn("NewTStructEmpty", st, a))
			if !ok {
				return nil, nil, false
			}
			e.val = rs[0]
		default:
			ctor := map[string]string{"LIST": "NewTList", "SET": "NewTSet", "MAP": "NewTMap"}[k.name]
			i32 := mkIntT(tt, 8)
			args := []*Val{i32, mkInt(0)}
			if k.name == "MAP" {
				args = []*Val{i32, i32, mkInt(0)}
			}
			rs, ok := one(ctor, l.fn(ctor, st, args...))
			if !ok {
				return nil, nil, false
			}
			e.val = rs[0]
			x := mk(OIface, tAny, "", a)
			switch k.name {
			case "LIST":
				_, ok = one("Push", l.meth(st, e.val, "Push", x))
			case "SET":
				_, ok = one("Add", l.meth(st, e.val, "Add", x))
			case "MAP":
				_, ok = one("Set", l.meth(st, e.val, "Set", mk(OIface, tAny, "", mkIntT(types.Typ[types.Int32], 1)), x))
			}
			if !ok {
				return nil, nil, false
			}
		}
		r = append(r, e)
	}
	return r, st, true
}

// relate assumes a rel b on a state.
func relate(st *State, a, b *Val, rel int) bool {
	f := st.facts
	if rel == 0 {
		f.assume(mkEq(a, a), true)
		if isBool(a.typ) {
			if x := f.eval(a); x != 0 {
				return f.assume(b, x > 0)
			}
			return f.assume(mkEq(a, b), true)
		}
		return f.assume(mkEq(a, b), true) && (f.assume(ltAny(a, b), false) && f.assume(ltAny(b, a), false) && (!isFloat(a.typ) || f.assume(leFloat(a, b), true) && f.assume(leFloat(b, a), true)))
	}
	if isBool(a.typ) {
		return f.assume(a, rel > 0) && f.assume(b, rel < 0)
	}
	if rel > 0 {
		a, b = b, a
	}
	if isFloat(a.typ) {
		if !f.assume(mkEq(a, a), true) || !f.assume(mkEq(b, b), true) || !f.assume(leFloat(a, b), true) || !f.assume(leFloat(b, a), false) {
			return false
		}
	}
	return f.assume(ltAny(a, b), true) && f.assume(mkEq(a, b), false) && f.assume(mkEq(b, a), false) && f.assume(ltAny(b, a), false)
}

// weakOrders lists the ways n values can be ordered: the rank of each.
func weakOrders(n int) [][]int {
	var r [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			// ranks used must be 0..max
			mx := -1
			seen := map[int]bool{}
			for _, x := range p {
				seen[x] = true
				if x > mx {
					mx = x
				}
			}
			if len(seen) == mx+1 {
				r = append(r, append([]int(nil), p...))
			}
			return
		}
		for x := 0; x < n; x++ {
			rec(append(p, x))
		}
	}
	rec(nil)
	return r
}

// ordered lists the states in which the elements are ordered as their ranks say.
func ordered(st *State, es []elem, ranks []int) []*State {
	var r []*State
	if len(es) > 0 && isBool(es[0].key.typ) {
		for _, b := range []bool{false, true} {
			s := st.clone()
			s.facts.assume(es[0].key, b)
			if s, ok := ordered1(s, es, ranks); ok {
				r = append(r, s)
			}
		}
		return r
	}
	if s, ok := ordered1(st, es, ranks); ok {
		r = append(r, s)
	}
	return r
}

func ordered1(st *State, es []elem, ranks []int) (*State, bool) {
	st = st.clone()
	for i := range es {
		for j := i + 1; j < len(es); j++ {
			if !relate(st, es[i].key, es[j].key, sgn(ranks[i]-ranks[j])) {
				return nil, false
			}
		}
	}
	return st, true
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func orderName(es []elem, ranks []int) string {
	s := ""
	for i := range es {
		s += fmt.Sprintf("%s:%d ", es[i].name, ranks[i])
	}
	return s
}
