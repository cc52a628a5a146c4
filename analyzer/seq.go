package main

import (
	"fmt"
	"go/token"
	"strings"
)

// A session is a fixed sequence of protocol calls; each abstract path through
// it carries the results of every call. Paths on which the transport fails are
// left to the error-propagation property.

type session struct {
	st   *State
	rets [][]*Val
	stop int // index of the call that reported an error, -1 if none
	out  Outcome
}

type step struct {
	m    string
	args []*Val
	only map[int]*Val // results the continuation is followed for
}

// when follows the session only where result i equals v.
func (s step) when(i int, v *Val) step {
	m := map[int]*Val{i: v}
	for k, x := range s.only {
		m[k] = x
	}
	s.only = m
	return s
}

func call(m string, args ...*Val) step { return step{m: m, args: args} }

func (w *wire) play(ps *protoState, st *State, key string, steps ...step) []session {
	c := w.c
	cur := []session{{st: st, stop: -1}}
	s0 := st.clone()
	s0.trace = nil
	cur[0].st = s0
	var done []session
	for _, sp := range steps {
		var nxt []session
		for _, s := range cur {
			for _, o := range w.call(ps, s.st, sp.m, append([]*Val(nil), sp.args...)...) {
				if o.kind != XReturn {
					c.ob(w.rule, key, false, "%s in %s", c.descOutcome(o), sp.m)
					continue
				}
				bad := false
				for _, e := range o.st.trace.list() {
					if strings.HasSuffix(e.name, "-fail") {
						bad = true
					}
				}
				if bad {
					continue
				}
				n := session{st: o.st, rets: append(append([][]*Val(nil), s.rets...), o.rets), stop: -1, out: o}
				switch errState(o.st, o.rets[len(o.rets)-1]) {
				case 0:
					c.ob(w.rule, key, false, "cannot tell whether %s reports an error: %s", sp.m, c.descOutcome(o))
				case 1:
					n.stop = len(n.rets) - 1
					done = append(done, n)
				default:
					drop := false
					for i, v := range sp.only {
						if !o.st.facts.assume(mkEq(o.rets[i], v), true) {
							drop = true
						}
					}
					if !drop {
						nxt = append(nxt, n)
					}
				}
			}
		}
		cur = nxt
		if len(cur) > 3000 {
			c.undecided(w.rule, key, "too many paths")
			return nil
		}
	}
	r := append(done, cur...)
	if len(r) == 0 {
		c.undecided(w.rule, key, "no path completes")
	}
	return r
}

// sd is one session with the stepwise statement of what it should have done.
type sd struct {
	rd
	s     session
	at    int // current call
	rej   int
	vals  []sval
	notes []string
}

type sval struct {
	step, i int
	v       *Val
	seq     bool
}

// step moves on to the next call; when the path ended earlier the rest is not compared.
func (r *sd) step() {
	r.at++
	if r.s.stop >= 0 && r.at > r.s.stop {
		panic(doneCase{}) // the earlier rejection is judged against rej == -1
	}
}

func (r *sd) get(i int) *Val { return r.s.rets[r.at][i] }

func (r *sd) rejectIf(c *Val) {
	if r.is(c) {
		r.rej = r.at
		panic(doneCase{})
	}
}

func (r *sd) mustReject() { r.rej = r.at; panic(doneCase{}) }
func (r *sd) free()       { panic(deadCase{}) } // behaviour not constrained here

func (r *sd) result(i int, v *Val)    { r.vals = append(r.vals, sval{r.at, i, v, false}) }
func (r *sd) resultSeq(i int, v *Val) { r.vals = append(r.vals, sval{r.at, i, v, true}) }

// sessions compares every path with the stepwise spec. what selects the side
// of the wire compared with the expected bytes: "write" or "read".
func (w *wire) sessions(key, what string, ss []session, spec func(r *sd)) {
	c := w.c
	for _, s := range ss {
		pend := [][]bool{nil}
		for n := 0; len(pend) > 0; n++ {
			if n > 4000 {
				c.undecided(w.rule, key, "too many cases")
				break
			}
			ch := pend[len(pend)-1]
			pend = pend[:len(pend)-1]
			r := &sd{s: s, rej: -1, at: -1}
			r.rd = rd{w: w, o: s.out, f: s.st.facts.clone(), choices: append([]bool(nil), ch...), want: &seqb{}}
			func() {
				defer func() {
					if x := recover(); x != nil {
						switch x.(type) {
						case deadCase:
							r.dead = true
						case doneCase:
						default:
							panic(x)
						}
					}
				}()
				spec(r)
			}()
			for i := len(ch); i < len(r.choices); i++ {
				pend = append(pend, append(append([]bool(nil), r.choices[:i]...), false))
			}
			if !r.dead {
				w.judgeSession(key, what, r)
			}
		}
	}
}

func (w *wire) judgeSession(key, what string, r *sd) {
	c, s := w.c, r.s
	desc := func() string { return c.descOutcome(s.out) }
	switch {
	case r.rej >= 0 && s.stop < 0:
		c.ob(w.rule, key, false, "call %d accepts what must be rejected: %s", r.rej+1, desc())
		return
	case r.rej < 0 && s.stop >= 0:
		c.ob(w.rule, key, false, "call %d reports an error on valid data: %s", s.stop+1, desc())
		return
	case r.rej != s.stop:
		c.ob(w.rule, key, false, "call %d reports the error, call %d must: %s", s.stop+1, r.rej+1, desc())
		return
	case r.rej >= 0:
		c.ob(w.rule, key, true, "rejects")
		return
	}
	got, _ := written(s.st)
	if what == "read" {
		got, _ = consumed(s.st)
	}
	g, x := r.f.simp(got), r.f.simp(r.want.seq())
	if !c.ob(w.rule, key, g == x, "%ss %v; the format is %v; %s", what, g, x, desc()) {
		return
	}
	for _, v := range r.vals {
		a := s.rets[v.step][v.i]
		if v.seq {
			p, q := r.f.simp(w.seqOf(s.st, a)), r.f.simp(mkSeq(tBytes, []*Val{v.v}, []byte{'s'}))
			c.ob(w.rule, key, p == q, "result %d of call %d holds %v, the bytes read are %v; %s", v.i, v.step+1, p, q, desc())
			continue
		}
		c.ob(w.rule, key, sameVal(r.f, a, v.v), "result %d of call %d is %v, the format says %v; %s", v.i, v.step+1, r.f.simp(a), r.f.simp(v.v), desc())
	}
}

// ---------------------------------------------------------------- compact format

func bitsOf(v *Val) []*Bit { return toBits(v) }

// zigzag maps a signed integer to its zigzag code (same width, unsigned).
func zigzag(v *Val) *Val {
	b := toBits(v)
	n := len(b)
	r := make([]*Bit, n)
	r[0] = b[n-1]
	for i := 1; i < n; i++ {
		r[i] = bxor(b[i-1], b[n-1])
	}
	return fromBits(unsignedOf(n), r)
}

func unzigzag(v *Val, signed int) *Val {
	b := toBits(v)
	n := len(b)
	r := make([]*Bit, n)
	for i := 0; i < n-1; i++ {
		r[i] = bxor(b[i+1], b[0])
	}
	r[n-1] = b[0]
	return fromBits(signedOf(n), r)
}

// emitVarint appends the canonical varint of v.
func (r *rd) emitVarint(v *Val) {
	b := append([]*Bit(nil), toBits(v)...)
	n := len(b)
	zero := toBits(mkIntT(unsignedOf(n), 0))[0]
	for i := 0; i < 11; i++ {
		rest := append([]*Bit(nil), b[min(7, n):]...)
		for len(rest) < n {
			rest = append(rest, zero)
		}
		last := r.is(mkEq(fromBits(unsignedOf(n), rest), mkIntT(unsignedOf(n), 0)))
		by := append([]*Bit(nil), b[:7]...)
		if last {
			by = append(by, zero)
		} else {
			by = append(by, bnot(zero))
		}
		r.want.bytes(fromBits(tByte, by))
		if last {
			return
		}
		b = rest
	}
}

// takeVarint consumes a varint and returns it as an unsigned integer of n bits.
// Encodings longer than the width needs may be rejected; longer than ten bytes must be.
func (r *rd) takeVarint(n int) (v *Val, tooLong, optional bool) {
	zero := toBits(mkIntT(unsignedOf(n), 0))[0]
	bs := make([]*Bit, n)
	for i := range bs {
		bs[i] = zero
	}
	need := (n + 6) / 7
	for i := 0; i < 10; i++ {
		b := r.bytes(1)[0]
		x := toBits(b)
		for j := 0; j < 7; j++ {
			if 7*i+j < n {
				bs[7*i+j] = x[j]
			}
		}
		if !r.is(mkEq(fromBits(tByte, append(append([]*Bit(nil), x[7]), zero, zero, zero, zero, zero, zero, zero)), mkIntT(tByte, 1))) {
			return fromBits(unsignedOf(n), bs), false, i >= need
		}
	}
	return nil, true, false
}

func unsignedOf(n int) typ { return map[int]typ{8: tByte, 16: tU16, 32: tU32, 64: tU64}[n] }
func signedOf(n int) typ   { return map[int]typ{8: tI8, 16: tI16, 32: tI32, 64: tI64}[n] }

var _ = fmt.Sprint

func binopSub(a, b *Val) *Val { return binop(token.SUB, a, b, a.typ) }
func binopAdd(a, b *Val) *Val { return binop(token.ADD, a, b, a.typ) }
