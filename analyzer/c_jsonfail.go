package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C21"] = &check{run: runC21, min: 100,
		rule: "on every path of every read and write call of both JSON protocols on which an operation of the transport fails, the call returns a non-nil error; no path panics; Flush flushes the transport and reports its failure",
		expl: "Abstract interpretation of the methods of both JSON protocols at every call of every document of C18 and C19, over a transport that may fail at each write, at each refill of the read buffer and at Flush.",
		asm:  []string{"bufio.Reader reports the failure of the reader below when it needs more than is buffered", "base64 encoders report the failure of the writer below", "calls are made in protocol order"},
	}
}

// failDoc lets the transport fail during each call of a document in turn.
func (w *wire) failDoc(key string, ps *protoState, d *jdoc, read bool, sty jstyle) (failing int) {
	c := w.c
	st := ps.st.clone()
	st.trace = nil
	t := &jtext{w: w, sty: sty, env: map[*Val]*Val{}, alt: map[*Val]*Val{}}
	if read {
		for _, s := range d.steps {
			for _, p := range s.parts {
				t.part(p)
			}
		}
		for _, f := range t.init {
			f(st.facts)
		}
		rk, _ := jsonRest(st)
		if rk == nil {
			c.undecided(w.rule, key, "no reader over the transport")
			return
		}
		st.heap[rk] = mkSeq(types.NewSlice(tByte), t.vs, t.ks)
		st.ext["eof"] = 1
	}
	for _, s := range d.steps {
		m, args := s.wm, s.wargs
		if read {
			m, args = s.rm, nil
		}
		if m == "" {
			continue
		}
		// whatever the call found in the buffer, the transport may fail when it needs more
		from := st.clone()
		from.trace = nil
		from.ext["peek"] = 0
		w.noFail = false
		for _, o := range w.call(ps, from, m, append([]*Val(nil), args...)...) {
			if o.kind != XReturn {
				c.ob(w.rule, key+" "+m, false, "%s", c.descOutcome(o))
				continue
			}
			failed := false
			for _, e := range o.st.trace.list() {
				failed = failed || strings.HasSuffix(e.name, "-fail")
			}
			if !failed {
				continue
			}
			failing++
			c.ob(w.rule, key+" "+m, errState(o.st, o.rets[len(o.rets)-1]) > 0, "the transport fails and the call does not report it: %s", c.descOutcome(o))
		}
		w.noFail = true
		var next *State
		for _, o := range w.call(ps, st, m, append([]*Val(nil), args...)...) {
			if o.kind == XReturn && errState(o.st, o.rets[len(o.rets)-1]) < 0 {
				next = o.st
			}
		}
		if next == nil {
			c.undecided(w.rule, key, "%s does not succeed on valid data", m)
			return
		}
		st = next
		st.trace = nil
	}
	return
}

func runC21(c *Ctx) {
	for _, k := range jsonCtors {
		w, ps := c.newJSON("json failures", k.name)
		if ps == nil {
			continue
		}
		short := k.name[4:]
		nr, nw := 0, 0
		for _, p := range c.jplaces() {
			for _, op := range append(append([]string(nil), scalarOps...), compositeOps...) {
				d := p.after(p.before(newDoc(k.full)).op(c, op))
				nw += w.failDoc(short+" write "+op, ps, d, false, jstyles[0])
				for _, s := range []int{0, 1, 3} {
					nr += w.failDoc(short+" read "+op, ps, d, true, jstyles[s])
				}
			}
		}
		for _, op := range nullOps {
			d := c.jplaces()[1].after(c.jplaces()[1].before(newDoc(k.full)).null(c, op))
			nr += w.failDoc(short+" read null "+op, ps, d, true, jstyles[1])
		}
		c.ob("json failures", short+" failing operations reached", nr >= 200 && nw >= 200, "%d failing reads, %d failing writes", nr, nw)
		w.noFail = false
		for _, o := range w.call(ps, ps.st, "Flush") {
			n, failed := 0, false
			for _, e := range o.st.trace.list() {
				if strings.HasPrefix(e.name, "flush") {
					n++
				}
				failed = failed || e.name == "flush-fail"
			}
			want := -1
			if failed {
				want = 1
			}
			c.ob("json failures", short+" Flush", o.kind == XReturn && n == 1 && errState(o.st, o.rets[0]) == want, "%s", c.descOutcome(o))
		}
		for _, o := range w.call(ps, ps.st, "Transport") {
			c.ob("json failures", short+" Transport is the wrapped one", o.kind == XReturn && len(o.rets) == 1 && w.isTrans(o.rets[0]), "%s", fmt.Sprint(o.rets))
		}
	}
}
