package main

// Channels and maps whose whole history is inside the analysed code. A channel
// is the queue of the values sent and not yet received: a goroutine started to
// feed it is interpreted where it starts, which yields what every schedule of
// a sender and a receiver without other shared state yields. A map is the list
// of its entries; iteration visits them in every order.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isQueue(ch *Val) bool {
	_, ok := ch.typ.Underlying().(*types.Chan)
	for ch.op == OConv && ch.aux != "mem" {
		ch = ch.args[0]
	}
	return ok && ch.op == OConv && ch.aux == "mem" && len(ch.args) == 2
}

func queueKey(ch *Val) *Val {
	for ch.op == OConv && ch.aux != "mem" {
		ch = ch.args[0]
	}
	return mk(OFieldAddr, ch.typ, "queue", ch.args[0])
}

func queueOf(st *State, ch *Val) (closed bool, q []*Val) {
	v := st.heap[queueKey(ch)]
	if v == nil {
		return false, nil
	}
	return strings.HasPrefix(v.aux, "closed"), v.args
}

func setQueue(st *State, ch *Val, closed bool, q []*Val) {
	aux := "open"
	if closed {
		aux = "closed"
	}
	st.heap[queueKey(ch)] = mk(OTuple, ch.typ, aux+":"+strconv.FormatInt(chanCap(ch), 10), q...)
}

func chanElem(ch *Val) types.Type { return ch.typ.Underlying().(*types.Chan).Elem() }

func (in *Interp) send(st *State, ch, v *Val) string {
	closed, q := queueOf(st, ch)
	if closed {
		return "send on closed channel"
	}
	if st.ext["ingo"] == 0 && int64(len(q)) >= chanCap(ch) {
		return "deadlock: send on a channel that nobody receives from"
	}
	setQueue(st, ch, false, append(append([]*Val(nil), q...), v))
	return ""
}

func chanCap(ch *Val) int64 {
	for ch.op == OConv && ch.aux != "mem" {
		ch = ch.args[0]
	}
	n, _ := ch.args[1].i64()
	return n
}

func (in *Interp) receive(st *State, ch *Val) (v, ok *Val, why string) {
	closed, q := queueOf(st, ch)
	if len(q) > 0 {
		setQueue(st, ch, closed, q[1:])
		return q[0], mkBool(true), ""
	}
	if closed {
		return zeroVal(chanElem(ch)), mkBool(false), ""
	}
	return nil, nil, "deadlock: receive from a channel that nobody sends on"
}

func (in *Interp) closeQueue(st *State, ch *Val) string {
	closed, q := queueOf(st, ch)
	if closed {
		return "close of closed channel"
	}
	setQueue(st, ch, true, q)
	return ""
}

// stuck tells whether some goroutine is left waiting for a receiver.
func stuck(st *State) bool {
	for k, v := range st.heap {
		if k.op == OFieldAddr && k.aux == "queue" {
			_, c, _ := strings.Cut(v.aux, ":")
			if n, _ := strconv.Atoi(c); len(v.args) > n {
				return true
			}
		}
	}
	return false
}

// ------------------------------------------------------------------ maps

func finiteMap(m *Val) bool {
	for m.op == OMapUpd {
		m = m.args[0]
	}
	return m.op == OMap && m.aux == "empty"
}

type mapPair struct{ k, v *Val }

// mapPairs lists the entries of a finite map, oldest first.
func mapPairs(m *Val) []mapPair {
	var r []mapPair
	for ; m.op == OMapUpd; m = m.args[0] {
		r = append(r, mapPair{m.args[1], m.args[2]})
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func mapOf(m *Val, l []mapPair) *Val {
	for m.op == OMapUpd {
		m = m.args[0]
	}
	for _, p := range l {
		m = mk(OMapUpd, m.typ, "", m, p.k, p.v)
	}
	return m
}

func sameKey(st *State, a, b *Val) int {
	if a == b {
		return 1
	}
	return st.facts.eval(mkEq(a, b))
}

// mapSplit makes every comparison of a key with those of the map decided: other
// answers are followed on copies that execute the instruction again.
func (in *Interp) mapSplit(st *State, fr *Frame, b *ssa.BasicBlock, k int, cur, key *Val, out *[]Outcome) (*Val, bool) {
	key = st.facts.simp(key)
	for _, p := range mapPairs(cur) {
		if sameKey(st, p.k, key) != 0 {
			continue
		}
		s2, f2 := st.clone(), in.fork(fr)
		if s2.facts.assume(mkEq(p.k, key), true) {
			in.instrs(s2, f2, b, k, out)
		}
		if !st.facts.assume(mkEq(p.k, key), false) {
			return nil, false
		}
	}
	return key, true
}

func mapSet(st *State, cur, key, v *Val) *Val {
	l := mapPairs(cur)
	for i, p := range l {
		if sameKey(st, p.k, key) > 0 {
			l[i].v = v
			return mapOf(cur, l)
		}
	}
	return mapOf(cur, append(l, mapPair{key, v}))
}

func (in *Interp) lookupColl(st *State, fr *Frame, b *ssa.BasicBlock, k int, x *ssa.Lookup, out *[]Outcome) bool {
	m := in.val(st, fr, x.X)
	if isString(m.typ) {
		return false
	}
	cur := in.mapContent(st, m)
	if !finiteMap(cur) {
		return false
	}
	key, ok := in.mapSplit(st, fr, b, k, cur, in.val(st, fr, x.Index), out)
	if !ok {
		return true
	}
	v, found := zeroVal(m.typ.Underlying().(*types.Map).Elem()), false
	for _, p := range mapPairs(cur) {
		if sameKey(st, p.k, key) > 0 {
			v, found = p.v, true
		}
	}
	if x.CommaOk {
		fr.env[x] = mk(OTuple, x.Type(), "", v, mkBool(found))
	} else {
		fr.env[x] = v
	}
	return false
}

// nextColl visits the entries not visited yet, each on a path of its own.
func (in *Interp) nextColl(st *State, fr *Frame, b *ssa.BasicBlock, k int, x *ssa.Next, it, content *Val, out *[]Outcome) {
	tt := x.Type().(*types.Tuple)
	mt := it.args[0].typ.Underlying().(*types.Map)
	key := mk(OFieldAddr, mt.Key(), "visited", it)
	var seen []*Val
	if v := st.heap[key]; v != nil {
		seen = v.args
	}
	var left []mapPair
	for _, p := range mapPairs(content) {
		used := false
		for _, s := range seen {
			used = used || s == p.k
		}
		if !used {
			left = append(left, p)
		}
	}
	typ := func(i int, d types.Type) types.Type {
		if t := tt.At(i).Type(); t != types.Typ[types.Invalid] {
			return t
		}
		return d
	}
	if len(left) == 0 {
		fr.env[x] = mk(OTuple, tt, "", mkBool(false), zeroVal(typ(1, mt.Key())), zeroVal(typ(2, mt.Elem())))
		in.instrs(st, fr, b, k+1, out)
		return
	}
	for i, p := range left {
		s2, f2 := st, fr
		if i < len(left)-1 {
			s2, f2 = st.clone(), in.fork(fr)
		}
		s2.heap[key] = mk(OTuple, tt, "visited", append(append([]*Val(nil), seen...), p.k)...)
		f2.env[x] = mk(OTuple, tt, "", mkBool(true), p.k, p.v)
		in.instrs(s2, f2, b, k+1, out)
	}
}

// ownSorted gives a slice passed to package sort an array of its own: it is written in place.
func (in *Interp) ownSorted(st *State, fr *Frame, c *ssa.CallCommon) {
	f, ok := c.Value.(*ssa.Function)
	if !ok || len(c.Args) == 0 {
		return
	}
	if o := f.Object(); o == nil || o.Pkg() == nil || o.Pkg().Path() != "sort" && (o.Pkg().Path() != "slices" || !strings.HasPrefix(o.Name(), "Sort") && o.Name() != "Reverse") {
		return
	}
	chain := []ssa.Value{c.Args[0]}
	for {
		var next ssa.Value
		switch x := chain[len(chain)-1].(type) {
		case *ssa.MakeInterface:
			next = x.X
		case *ssa.ChangeType:
			next = x.X
		}
		if next == nil {
			break
		}
		chain = append(chain, next)
	}
	base := chain[len(chain)-1]
	v := in.val(st, fr, base)
	if v.typ == nil || !isSlice(v.typ) || v.op == OView || v.isNil() {
		return
	}
	if n, ok := mkLen(v).i64(); !ok || n == 0 {
		return
	}
	w := in.materialise(st, fr, base, v)
	for i := len(chain) - 2; i >= 0; i-- {
		switch x := chain[i].(type) {
		case *ssa.MakeInterface:
			w = mk(OIface, x.Type(), "", w)
		case *ssa.ChangeType:
			w = mk(OView, x.Type(), "", w.args...)
		}
		fr.env[chain[i]] = w
	}
}

// sortPrim performs the operations the sorting shims rest on.
func (in *Interp) sortPrim(st *State, ci *callInfo) ([]modelOut, bool) {
	switch ci.name {
	case "vshim.vlen":
		return []modelOut{{st: st, res: []*Val{mkLen(unwrapAny(ci.args[0]))}}}, true
	case "vshim.vswap":
		x := unwrapAny(ci.args[0])
		i, iok := ci.args[1].i64()
		j, jok := ci.args[2].i64()
		n, nok := mkLen(x).i64()
		if x.op != OView || !iok || !jok || !nok {
			return nil, false
		}
		et := elemType(x.typ)
		var es []*Val
		var ks []byte
		cur := in.content(st, x)
		for k := int64(0); k < n; k++ {
			es = append(es, seqIndex(cur, mkInt(k), et))
			ks = append(ks, 'e')
		}
		es[i], es[j] = es[j], es[i]
		in.setContent(st, x, mkSeq(x.typ, es, ks))
		return []modelOut{{st: st}}, true
	}
	return nil, false
}
