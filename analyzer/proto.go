package main

// An abstract TProtocol: every operation succeeds with symbolic results or
// fails with an error. The trace of operations is what callers of a protocol
// are judged by.

import (
	"fmt"
	"go/types"
	"strings"
)

type absProto struct {
	c      *Ctx
	v      *Val
	it     *types.Interface
	noFail bool
	// skipLike: further calls to be taken as one operation on the protocol
	also func(in *Interp, st *State, ci *callInfo) (string, bool)
}

func (c *Ctx) newProto(name string) *absProto {
	t, _ := c.prog.Type("TProtocol").(*types.Named)
	if !c.need("interface TProtocol", t != nil) {
		return nil
	}
	return &absProto{c: c, v: atom(t, name), it: t.Underlying().(*types.Interface)}
}

func (p *absProto) isMe(v *Val) bool { return v != nil && unwrap(v) == p.v }

func (p *absProto) model(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	if p.also != nil {
		if n, ok := p.also(in, st, ci); ok {
			return p.op(in, st, ci, n), true
		}
	}
	if ci.recv == nil || !p.isMe(ci.recv) || ci.fn == nil {
		return nil, false
	}
	m := ci.fn.Name()
	if m == "Transport" {
		r := mk(OCall, ci.sig.Results().At(0).Type(), "Transport", p.v)
		st.facts.isnil[r] = false
		return []modelOut{{st: st, res: []*Val{r}}}, true
	}
	return p.op(in, st, ci, m), true
}

func (p *absProto) op(in *Interp, st *State, ci *callInfo, m string) []modelOut {
	rs := ci.sig.Results()
	if rs.Len() == 0 || !isIface(rs.At(rs.Len()-1).Type()) {
		return nil
	}
	snaps := make([]*Val, len(ci.args))
	for i, a := range ci.args {
		snaps[i] = a
		if a.typ != nil && isSlice(a.typ) {
			snaps[i] = in.content(st, a)
		}
	}
	et := rs.At(rs.Len() - 1).Type()
	mkOut := func(s *State, fail bool) modelOut {
		var res []*Val
		for i := 0; i < rs.Len()-1; i++ {
			l := fmt.Sprintf("%s.%s%d", p.v.aux, m, i)
			if fail {
				l += ".fail"
			}
			res = append(res, in.unknown(s, rs.At(i).Type(), l))
		}
		n := m
		if fail {
			res = append(res, newErr(s, et, m+"-error"))
			n += "-fail"
		} else {
			res = append(res, mkNil(et))
		}
		s.add(&Event{kind: EvCall, name: n, method: m, fn: ci.fn, recv: ci.recv, args: ci.args, snaps: snaps, res: res, pos: ci.pos, in: ci.in})
		return modelOut{st: s, res: res}
	}
	if p.noFail {
		return []modelOut{mkOut(st, false)}
	}
	f := st.clone()
	return []modelOut{mkOut(st, false), mkOut(f, true)}
}

// tr walks one path's trace of operations against a stepwise statement.
type tr struct {
	rd
	evs []*Event
	i   int
	bad string
}

type trBad struct{}

func (t *tr) fail(f string, a ...any) {
	t.bad = fmt.Sprintf(f, a...)
	panic(trBad{})
}

func (t *tr) peek() string {
	if t.i < len(t.evs) {
		return t.evs[t.i].method
	}
	return ""
}

// op expects the next operation; when it failed, the path must end there with its error.
func (t *tr) op(name string) *Event {
	if t.i >= len(t.evs) {
		t.fail("%s is missing after %d operations", name, t.i)
	}
	e := t.evs[t.i]
	if e.method != name {
		t.fail("operation %d is %s where %s belongs", t.i+1, e.name, name)
	}
	t.i++
	if strings.HasSuffix(e.name, "-fail") {
		t.failed(e)
	}
	return e
}

func (t *tr) failed(e *Event) {
	if t.i < len(t.evs) {
		t.fail("%s failed and %s follows", e.method, t.evs[t.i].name)
	}
	r := t.o.rets[len(t.o.rets)-1]
	if errState(t.o.st, r) <= 0 {
		t.fail("%s failed and no error is returned", e.method)
	}
	if !t.w.carries(t.o.st, r, e.res[len(e.res)-1]) {
		t.fail("the error returned is not made from the error of %s", e.method)
	}
	panic(doneCase{})
}

func (t *tr) end(wantErr bool) {
	if t.i < len(t.evs) {
		t.fail("%s follows the last operation", t.evs[t.i].name)
	}
	r := t.o.rets[len(t.o.rets)-1]
	switch es := errState(t.o.st, r); {
	case es == 0:
		t.fail("cannot tell whether an error is returned")
	case wantErr && es < 0:
		t.fail("returns no error")
	case !wantErr && es > 0:
		t.fail("returns an error although every operation succeeded")
	}
	panic(doneCase{})
}

// traces compares every path with the statement; all cases a path leaves open are split.
func (c *Ctx) traces(rule, key string, outs []Outcome, spec func(t *tr)) {
	if len(outs) == 0 {
		c.undecided(rule, key, "no outcome")
		return
	}
	w := &wire{c: c, rule: rule}
	for _, o := range outs {
		if o.kind == XCut {
			continue
		}
		if o.kind != XReturn {
			c.ob(rule, key, false, "%s", c.descOutcome(o))
			continue
		}
		pend := [][]bool{nil}
		for n := 0; len(pend) > 0; n++ {
			if n > 2000 {
				c.undecided(rule, key, "too many cases")
				break
			}
			ch := pend[len(pend)-1]
			pend = pend[:len(pend)-1]
			t := &tr{evs: o.st.trace.list()}
			t.rd = rd{w: w, o: o, f: o.st.facts.clone(), choices: append([]bool(nil), ch...), want: &seqb{}}
			func() {
				defer func() {
					if x := recover(); x != nil {
						switch x.(type) {
						case deadCase:
							t.dead = true
						case doneCase, trBad:
						default:
							panic(x)
						}
					}
				}()
				spec(t)
			}()
			for i := len(ch); i < len(t.choices); i++ {
				pend = append(pend, append(append([]bool(nil), t.choices[:i]...), false))
			}
			if !t.dead {
				c.ob(rule, key, t.bad == "", "%s: %s", t.bad, c.descOutcome(o))
			}
		}
	}
}

func (t *tr) exact() bool {
	for _, e := range t.evs {
		for _, r := range e.args {
			if mentionsAtom(r, "loop:") {
				return false
			}
		}
	}
	return true
}
