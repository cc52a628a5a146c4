package main

import (
	"fmt"
	"go/types"
)

// rd is one abstract path of a reading method together with a stepwise
// statement of what it should have consumed and returned. Conditions the
// path's own branches do not decide are split so that each case is compared.
type rd struct {
	w       *wire
	o       Outcome
	f       *Facts
	choices []bool
	used    int
	open    []int
	want    *seqb
	seg     int
	off     int
	reject  bool
	errOK   bool // a rejection is allowed but not required
	rets    []retSpec
	dead    bool
}

type retSpec struct {
	i    int
	v    *Val
	seq  bool
	what string
}

type deadCase struct{}

// is decides a condition on this path, splitting when it is open.
func (r *rd) is(c *Val) bool {
	if t := r.f.eval(c); t != 0 {
		return t > 0
	}
	if t := r.f.eval(r.f.simp(c)); t != 0 {
		return t > 0
	}
	var v bool
	if r.used < len(r.choices) {
		v = r.choices[r.used]
	} else {
		r.choices = append(r.choices, true)
		v = true
	}
	r.used++
	if !r.f.assume(c, v) {
		panic(deadCase{})
	}
	return v
}

func (r *rd) bytes(n int) []*Val {
	vs := make([]*Val, n)
	for i := range vs {
		vs[i] = inByte(r.seg, r.off)
		r.off++
	}
	r.want.bytes(vs...)
	return vs
}

// block consumes n bytes of symbolic length.
func (r *rd) block(n *Val) *Val {
	n = r.f.simpConst(convert(n, tInt))
	tc := types.NewSlice(tByte)
	if k, ok := n.i64(); ok && k <= 64 {
		var q seqb
		q.bytes(r.bytes(int(k))...)
		return q.seq()
	}
	s := seqAtom(tc, fmt.Sprintf("in.str%d", r.seg), n)
	r.want.splice(s)
	r.seg++
	r.off = 0
	return s
}

func (r *rd) ret(i int, v *Val)    { r.rets = append(r.rets, retSpec{i: i, v: v}) }
func (r *rd) retSeq(i int, v *Val) { r.rets = append(r.rets, retSpec{i: i, v: v, seq: true}) }

// seqOf is the byte sequence a string or slice value holds.
func (w *wire) seqOf(st *State, v *Val) *Val {
	for v.op == OConv && (v.aux == "" || v.aux == "ct") && len(v.args) == 1 && (isString(v.args[0].typ) || isSlice(v.args[0].typ)) {
		v = v.args[0]
	}
	if s, ok := v.strConst(); ok {
		var q seqb
		for i := 0; i < len(s); i++ {
			q.lit(int(s[i]))
		}
		return q.seq()
	}
	c := w.in.content(st, v)
	for c.op == OConv && len(c.args) == 1 {
		c = c.args[0]
	}
	return mkSeq(types.NewSlice(tByte), []*Val{c}, []byte{'s'})
}

func sameVal(f *Facts, a, b *Val) bool {
	a, b = f.simp(f.simpConst(a)), f.simp(f.simpConst(b))
	if a == b {
		return true
	}
	if a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
		if (isInt(a.typ) && isInt(b.typ)) || (isString(a.typ) && isString(b.typ)) {
			b = convert(b, a.typ)
			if a == b {
				return true
			}
		}
	}
	if isBool(a.typ) && isBool(b.typ) {
		x, y := f.eval(a), f.eval(b)
		return x != 0 && x == y
	}
	return f.eval(mkEq(a, b)) > 0
}

// reads decides that every path on which the transport delivers consumes and
// returns what spec says, including which inputs are rejected.
func (w *wire) reads(key string, outs []Outcome, spec func(r *rd)) {
	c := w.c
	if len(outs) == 0 {
		c.undecided(w.rule, key, "no outcome")
	}
	fine := false
	defer func() {
		if !fine {
			c.undecided(w.rule, key, "no path on which the transport delivers everything")
		}
	}()
	for _, o := range outs {
		if o.kind == XReturn {
			if _, failed := consumed(o.st); failed {
				continue
			}
		}
		fine = true
		pend := [][]bool{nil}
		for n := 0; len(pend) > 0; n++ {
			if n > 512 {
				c.undecided(w.rule, key, "too many cases")
				break
			}
			ch := pend[len(pend)-1]
			pend = pend[:len(pend)-1]
			r := &rd{w: w, o: o, f: o.st.facts.clone(), choices: append([]bool(nil), ch...), want: &seqb{}}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(deadCase); !ok {
							panic(x)
						}
						r.dead = true
					}
				}()
				spec(r)
			}()
			for i := len(ch); i < len(r.choices); i++ {
				alt := append(append([]bool(nil), r.choices[:i]...), false)
				pend = append(pend, alt)
			}
			if r.dead {
				continue
			}
			w.judge(key, r)
		}
	}
}

func (w *wire) judge(key string, r *rd) {
	c, o := w.c, r.o
	if o.kind != XReturn {
		c.ob(w.rule, key, false, "%s", c.descOutcome(o))
		return
	}
	got, _ := consumed(o.st)
	es := errState(o.st, o.rets[len(o.rets)-1])
	if es == 0 {
		c.ob(w.rule, key, false, "cannot tell whether it reports an error: %s", c.descOutcome(o))
		return
	}
	if r.errOK && es > 0 {
		c.ob(w.rule, key, true, "rejects")
		return
	}
	if r.reject {
		c.ob(w.rule, key, es > 0, "accepts input that must be rejected: %s", c.descOutcome(o))
		return
	}
	if es > 0 {
		c.ob(w.rule, key, false, "rejects input that must be accepted: %s", c.descOutcome(o))
		return
	}
	g, x := r.f.simp(got), r.f.simp(r.want.seq())
	if !c.ob(w.rule, key, g == x, "consumes %v; the format is %v; %s", g, x, c.descOutcome(o)) {
		return
	}
	for _, s := range r.rets {
		v := o.rets[s.i]
		if s.seq {
			a, b := r.f.simp(w.seqOf(o.st, v)), r.f.simp(mkSeq(types.NewSlice(tByte), []*Val{s.v}, []byte{'s'}))
			c.ob(w.rule, key, a == b, "result %d holds %v, the bytes read are %v; %s", s.i, a, b, c.descOutcome(o))
			continue
		}
		c.ob(w.rule, key, sameVal(r.f, v, s.v), "result %d is %v, the format says %v; %s", s.i, r.f.simp(v), r.f.simp(s.v), c.descOutcome(o))
	}
}
