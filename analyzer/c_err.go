package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C06"] = &check{run: runC06, min: 120,
		rule: "on every path of every binary- and compact-protocol method on which any transport operation fails, the method returns a non-nil error; no path panics; Flush flushes the transport",
		expl: "Abstract interpretation of every TProtocol method of both protocols from their constructors (both strict settings; compact also with a pending boolean field and inside a struct) over a transport that may fail at every single operation. Every path carrying a failed operation must end in a return of a provably non-nil error.",
		asm:  []string{"io.Writer/ReadAll contracts: a failed or short operation reports a non-nil error", "calls are made in protocol order (a struct is begun before it is ended)"},
	}
}

// failing decides one call over a failing transport.
func (w *wire) failing(key string, outs []Outcome) {
	c := w.c
	if len(outs) == 0 {
		c.undecided(w.rule, key, "no outcome")
		return
	}
	nf := 0
	for _, o := range outs {
		if o.kind != XReturn {
			c.ob(w.rule, key, false, "%s", c.descOutcome(o))
			continue
		}
		failed := false
		var cause *Val
		for _, e := range o.st.trace.list() {
			if strings.HasSuffix(e.name, "-fail") {
				failed = true
				if cause == nil {
					cause = e.res[len(e.res)-1]
				}
			}
		}
		if !failed {
			c.ob(w.rule, key, true, "no transport operation fails")
			continue
		}
		nf++
		e := o.rets[len(o.rets)-1]
		if c.ob(w.rule, key, errState(o.st, e) > 0, "a transport operation fails and the call does not report it: %s", c.descOutcome(o)) {
			c.ob(w.rule, key+" cause", w.carries(o.st, e, cause), "the error reported is not made from the transport's: %s", c.descOutcome(o))
		}
	}
	w.nfail += nf
}

func runC06(c *Ctx) {
	iface, _ := c.prog.Type("TProtocol").(*types.Named)
	if !c.need("interface TProtocol", iface != nil) {
		return
	}
	it := iface.Underlying().(*types.Interface)
	tt := c.prog.Type("TType")
	mt := c.prog.Type("TMessageType")
	type mode struct {
		key   string
		ctor  string
		extra []*Val
	}
	modes := []mode{
		{"binary strict", "NewTBinaryProtocol", []*Val{mkBool(true), mkBool(true)}},
		{"binary", "NewTBinaryProtocol", []*Val{mkBool(false), mkBool(false)}},
		{"compact", "NewTCompactProtocol", nil},
	}
	sites := 0
	for _, md := range modes {
		w := c.newWire("error-propagation")
		w.in.cfg.Unroll = 12
		w.noFail = true
		ps := w.construct(md.ctor, md.extra...)
		if ps == nil {
			return
		}
		name := atom(tString, "name")
		id0 := mkIntT(tI16, 1)
		// the state a call is made in
		prep := func(steps ...step) *State {
			w.noFail = true
			ss := w.play(ps, ps.st, md.key+" prefix", steps...)
			for _, s := range ss {
				if s.stop < 0 {
					st := s.st.clone()
					st.trace = nil
					return st
				}
			}
			c.undecided(w.rule, md.key, "a valid prefix of calls cannot be followed")
			return ps.st
		}
		run := func(key string, st *State, m string, args ...*Val) {
			w.noFail = false
			w.failing(md.key+" "+key, w.call(ps, st, m, args...))
		}
		inW := prep(call("WriteStructBegin", name))
		inR := prep(call("ReadStructBegin"))
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			sig := f.Type().(*types.Signature)
			m := f.Name()
			if sig.Results().Len() == 0 || m == "Skip" || m == "Transport" {
				continue
			}
			st := ps.st
			switch {
			case strings.HasPrefix(m, "WriteField") || m == "WriteStructEnd":
				st = inW
			case strings.HasPrefix(m, "ReadField") || m == "ReadStructEnd":
				st = inR
			}
			variants := [][]*Val{{}}
			for j := 0; j < sig.Params().Len(); j++ {
				p := sig.Params().At(j)
				var vals []*Val
				switch {
				case types.Identical(p.Type(), tt):
					for _, t := range []int{2, 8, 12} {
						vals = append(vals, c.ttype(t))
					}
				case types.Identical(p.Type(), mt):
					vals = append(vals, c.mtype(1))
				case isBool(p.Type()):
					vals = append(vals, mkBool(true), mkBool(false))
				default:
					vals = append(vals, atom(p.Type(), p.Name()))
				}
				var nv [][]*Val
				for _, v := range variants {
					for _, x := range vals {
						nv = append(nv, append(append([]*Val(nil), v...), x))
					}
				}
				variants = nv
			}
			for _, v := range variants {
				key := m
				for _, x := range v {
					if x.isConst() {
						key += " " + x.String()
					}
				}
				before := w.nfail
				run(key, st, m, v...)
				_ = before
			}
		}
		// boolean fields: the value call writes the header
		pb := prep(call("WriteStructBegin", name), call("WriteFieldBegin", name, c.ttype(2), id0))
		run("WriteBool in field", pb, "WriteBool", mkBool(true))
		run("WriteBool false in field", pb, "WriteBool", mkBool(false))
		w.noFail = false
		w.flushes(md.key, ps)
		sites += w.nfail
	}
	c.extra["failing_paths"] = sites
	c.ob("error-propagation", "failing operations reached", sites >= 100, "%d paths with a failed transport operation", sites)
}

func (w *wire) flushes(key string, ps *protoState) {
	for _, o := range w.call(ps, ps.st, "Flush") {
		if o.kind != XReturn {
			continue
		}
		n := 0
		for _, e := range o.st.trace.list() {
			if strings.HasPrefix(e.name, "flush") {
				n++
			}
		}
		w.c.ob(w.rule, key+" Flush reaches the transport", n >= 1, "%s", w.c.descOutcome(o))
	}
	f := w.call(ps, ps.st, "Transport")
	for _, o := range f {
		w.c.ob(w.rule, key+" Transport is the wrapped one", o.kind == XReturn && len(o.rets) == 1 && w.isTrans(o.rets[0]), "%s", fmt.Sprint(o.rets))
	}
}

// carries: the error is the cause or an exception made from it.
func (w *wire) carries(st *State, e, cause *Val) bool {
	if mentions(e, cause) {
		return true
	}
	o := unwrap(e)
	for k, v := range st.heap {
		if rootObj(k) == o && mentions(v, cause) {
			return true
		}
	}
	return false
}
