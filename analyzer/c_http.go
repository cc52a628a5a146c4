package main

// C15: the HTTP client transport over abstract requests and responses.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = &check{run: runC15, min: 40,
		rule: "on every path of every method sequence of the HTTP transports: nothing is requested before Flush; each Flush posts to the configured URL exactly the bytes written since the previous Flush, also when that one failed; a failed request and a status other than 200 are reported as transport exceptions and leave no response to read; reads come from the body of the last response; every response body obtained is closed once by the next Flush or Close; after Close nothing is performed and everything reports NOT_OPEN",
		expl: "Abstract interpretation of call sequences from each constructor of an HTTP transport with the HTTP client abstract: any request may fail, any status code and any body may come back.",
		asm:  []string{"http.Get and http.Post return a response with a non-nil body or an error", "a request may consume any part of the body it is given"},
	}
}

// httpModel: package net/http's client and net/url.
func httpModel(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	if ci.sfn != nil && ci.sfn.Pkg != nil && !in.prog.Owned(ci.sfn) {
		p, n := ci.sfn.Pkg.Pkg.Path(), ci.sfn.Name()
		switch {
		case p == "net/url" && n == "Parse" && ci.recv == nil:
			rs := ci.sig.Results()
			bad := st.clone()
			u := mk(OCall, rs.At(0).Type(), "url.Parse", ci.args[0])
			st.facts.isnil[u] = false
			return []modelOut{{st: st, res: []*Val{u, mkNil(tError)}}, {st: bad, res: []*Val{mkNil(rs.At(0).Type()), newErr(bad, tError, "parse-error")}}}, true
		case p == "net/url" && n == "String" && ci.recv != nil && ci.recv.op == OCall && ci.recv.aux == "url.Parse":
			return one(ci.recv.args[0])
		case p == "net/http" && (n == "Get" || n == "Post"):
			args := ci.args
			if ci.recv != nil && len(args) > map[string]int{"Get": 1, "Post": 3}[n] {
				args = args[1:]
			}
			rt := ci.sig.Results().At(0).Type()
			content := mkSeq(types.NewSlice(tByte), nil, nil)
			var buf *Val
			if n == "Post" {
				buf = unwrap(args[2])
				if named(deref(buf.typ)) == "bytes.Buffer" {
					content = in.bufContent(st, buf)
				} else if buf.op == OConv && buf.aux == "mem" {
					content = mkSeq(types.NewSlice(tByte), []*Val{buf.args[0]}, []byte{'s'})
					buf = nil
				} else {
					content = mk(OCall, types.NewSlice(tByte), "content", buf)
					buf = nil
				}
			}
			ev := func(s *State, res ...*Val) {
				s.add(&Event{kind: EvCall, name: n, method: n, args: args, snaps: []*Val{content}, res: res, pos: ci.pos, in: ci.in})
			}
			bad := st.clone()
			resp := in.newObj(st, rt, "response")
			body := atom(ifaceField(rt, "Body"), st.label("body"))
			st.facts.isnil[body] = false
			in.setField(st, resp, "Body", body)
			in.setField(st, resp, "StatusCode", atom(tInt, st.label("status")))
			ev(st, resp, mkNil(tError), body)
			e := newErr(bad, tError, "request-error")
			ev(bad, mkNil(rt), e)
			if buf != nil {
				in.setBuf(st, buf, mkSeq(types.NewSlice(tByte), nil, nil))
				in.setBuf(bad, buf, seqAtom(types.NewSlice(tByte), bad.label("unsent"), atom(tInt, bad.label("unsent-len"))))
			}
			return []modelOut{{st: st, res: []*Val{resp, mkNil(tError)}}, {st: bad, res: []*Val{mkNil(rt), e}}}, true
		}
	}
	return netModel(in, st, ci)
}

func ifaceField(ptr types.Type, name string) types.Type {
	s := deref(ptr).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (in *Interp) setField(st *State, obj *Val, name string, v *Val) {
	s := deref(obj.typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			in.store(st, fieldAddr(obj, i), v)
		}
	}
}

func httpEvents(st *State) []*Event {
	var r []*Event
	for _, e := range st.trace.list() {
		switch e.method {
		case "Get", "Post", "Read", "Close", "Write", "Flush", "dial":
			if e.kind == EvCall {
				r = append(r, e)
			}
		}
	}
	return r
}

func runC15(c *Ctx) {
	rule := "http"
	tn, _ := c.prog.Type("TTransport").(*types.Named)
	if !c.need("interface TTransport", tn != nil) {
		return
	}
	n := 0
	for _, f := range c.httpCtors() {
		n++
		c.httpClient(rule, f)
	}
	c.ob(rule, "constructors found", n >= 2, "%d", n)
}

// httpCtors: constructors of a transport from an address text whose type keeps an *http.Response.
func (c *Ctx) httpCtors() []*ssa.Function {
	var r []*ssa.Function
	for n, m := range c.prog.Thrift.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "New") || len(f.Params) != 1 || f.Signature.Results().Len() != 2 || len(f.Blocks) == 0 {
			continue
		}
		if isString(f.Params[0].Type()) && strings.Contains(strings.ToLower(n), "http") && named(f.Signature.Results().At(0).Type()) == "thrift.TTransport" {
			r = append(r, f)
		}
	}
	sortFns(r)
	return r
}

type hpath struct {
	st   *State
	open []*Val // bodies not closed yet
	body *Val   // body of the last response
	kept bool   // the last response may be read
	want []*Val // written and not sent
}

func (c *Ctx) httpClient(rule string, f *ssa.Function) {
	s := &script{lab: c.newLab(rule, Config{Unroll: 3, PossiblePanics: true, Model: httpModel}), name: f.Name()}
	st := s.in.start()
	url := atom(tString, "url")
	bs := types.NewSlice(tByte)
	la, lb := atom(tInt, "size.a"), atom(tInt, "size.b")
	for _, l := range []*Val{la, lb} {
		st.facts.refine(l, Range{big1, big28})
	}
	a, b := s.in.userBuf(st, "a", la), s.in.userBuf(st, "b", lb)
	ca, cb := seqAtom(bs, "a", la), seqAtom(bs, "b", lb)
	nm := s.name + " "
	var fresh []hpath
	post := false
	for _, o := range s.run0(f, st, []*Val{url}) {
		if !c.ob(rule, nm+"returns", o.kind == XReturn, "%s", c.descOutcome(o)) {
			continue
		}
		evs := httpEvents(o.st)
		if errState(o.st, o.rets[1]) >= 0 {
			why := errState(o.st, o.rets[1]) > 0 && (len(evs) == 0 || len(evs) == 1 && errState(o.st, evs[0].res[1]) > 0)
			c.ob(rule, nm+"reports failures only", why, "%s", c.descOutcome(o))
			continue
		}
		p := hpath{st: o.st}
		if len(evs) > 0 {
			ok := len(evs) == 1 && evs[0].method == "Get" && sameVal(o.st.facts, evs[0].args[0], url) && errState(o.st, evs[0].res[1]) < 0
			if !c.ob(rule, nm+"gets the address once", ok, "%s", c.descOutcome(o)) {
				continue
			}
			p.body, p.kept = evs[0].res[2], true
			p.open = []*Val{p.body}
		} else {
			post = true
		}
		s.recv = unwrap(o.rets[0])
		fresh = append(fresh, p)
	}
	c.ob(rule, nm+"succeeds", len(fresh) > 0, "no path")
	// step performs one call on every path and keeps the books
	step := func(ps []hpath, what, m string, arg *Val, content *Val, judge func(p *hpath, o Outcome, evs []*Event) bool) []hpath {
		var r []hpath
		for _, p := range ps {
			var args []*Val
			if arg != nil {
				args = []*Val{arg}
			}
			s.run(what, []*State{p.st}, m, args, func(o Outcome) bool {
				q := hpath{st: o.st, open: append([]*Val(nil), p.open...), body: p.body, kept: p.kept, want: append([]*Val(nil), p.want...)}
				evs := httpEvents(o.st)
				for _, e := range evs {
					switch e.method {
					case "Close":
						i := -1
						for k, x := range q.open {
							if x == unwrap(e.recv) {
								i = k
							}
						}
						if !c.ob(rule, nm+what+" closes a body once", i >= 0, "%v is closed again: %s", e.recv, c.descOutcome(o)) {
							return false
						}
						q.open = append(append([]*Val(nil), q.open[:i]...), q.open[i+1:]...)
					case "Get", "Post":
						if errState(o.st, e.res[1]) < 0 {
							q.open = append(q.open, e.res[2])
						}
					}
				}
				if judge(&q, o, evs) {
					r = append(r, q)
				}
				return false
			})
		}
		return r
	}
	reads := func(ps []hpath, what string) {
		step(ps, what, "Read", a, nil, func(p *hpath, o Outcome, evs []*Event) bool {
			key := nm + what
			if !p.kept {
				s.isKind(key+" without a response", o, "NOT_OPEN")
				c.ob(rule, key+" without a response does nothing", len(evs) == 0, "%s", c.descOutcome(o))
				return false
			}
			if !c.ob(rule, key+" reads the last body once", len(evs) == 1 && evs[0].method == "Read" && unwrap(evs[0].recv) == p.body, "%s", c.descOutcome(o)) {
				return false
			}
			c.ob(rule, key+" reads into the caller's buffer", evs[0].args[0] == a, "reads into %v", evs[0].args[0])
			c.ob(rule, key+" returns the count", sameVal(o.st.facts, o.rets[0], evs[0].res[0]), "%v for %v", o.rets[0], evs[0].res[0])
			if e := evs[0].res[1]; errState(o.st, e) < 0 {
				s.okOut(key+" succeeds", o)
			} else {
				s.reported(key, o, e)
			}
			return false
		})
	}
	write := func(ps []hpath, what string, arg, content *Val) []hpath {
		return step(ps, what, "Write", arg, content, func(p *hpath, o Outcome, evs []*Event) bool {
			key := nm + what
			c.ob(rule, key+" requests nothing", len(evs) == 0, "%s", c.descOutcome(o))
			if !s.okOut(key, o) {
				return false
			}
			c.ob(rule, key+" counts what it takes", sameVal(o.st.facts, o.rets[0], mkLen(arg)), "%v of %v", o.rets[0], mkLen(arg))
			p.want = append(p.want, content)
			return true
		})
	}
	flush := func(ps []hpath, what string) []hpath {
		return step(ps, what, "Flush", nil, nil, func(p *hpath, o Outcome, evs []*Event) bool {
			key := nm + what
			var req *Event
			n := 0
			for _, e := range evs {
				if e.method == "Post" || e.method == "Get" {
					req = e
					n++
				}
			}
			if !c.ob(rule, key+" posts once", n == 1 && req.method == "Post", "%s", c.descOutcome(o)) {
				return false
			}
			c.ob(rule, key+" posts to the address", sameVal(o.st.facts, req.args[0], url), "posts to %v", req.args[0])
			ct, _ := req.args[1].strConst()
			c.ob(rule, key+" content type", ct == "application/x-thrift", "%v", req.args[1])
			var q seqb
			for _, x := range p.want {
				q.splice(x)
			}
			g, w := o.st.facts.simp(req.snaps[0]), o.st.facts.simp(q.seq())
			c.ob(rule, key+" posts what was written", g == w || sameContent(o.st.facts, g, w), "the body is %v, written is %v: %s", g, w, c.descOutcome(o))
			p.want = nil
			p.kept = false
			if errState(o.st, req.res[1]) > 0 {
				p.body = nil
				s.reported(key, o, req.res[1])
				c.ob(rule, key+" leaves no body open", len(p.open) == 0, "%v stays open: %s", p.open, c.descOutcome(o))
				return true
			}
			p.body = req.res[2]
			status := s.in.load(o.st, fieldNamed(req.res[0], "StatusCode"))
			switch o.st.facts.eval(mkEq(status, mkInt(200))) {
			case 1:
				if !s.okOut(key+" with status 200", o) {
					return false
				}
				p.kept = true
				c.ob(rule, key+" leaves one body open", len(p.open) == 1 && p.open[0] == p.body, "%v is open: %s", p.open, c.descOutcome(o))
			case -1:
				r := o.rets[len(o.rets)-1]
				if !c.ob(rule, key+" reports other statuses", errState(o.st, r) > 0, "%s", c.descOutcome(o)) {
					return false
				}
				s.excKind(key+" other status", o.st, r)
				c.ob(rule, key+" closes the body of a failed request", len(p.open) == 0, "%v stays open: %s", p.open, c.descOutcome(o))
			default:
				c.ob(rule, key+" looks at the status", false, "%s", c.descOutcome(o))
				return false
			}
			return true
		})
	}
	shut := func(ps []hpath, what string) {
		closed := step(ps, what, "Close", nil, nil, func(p *hpath, o Outcome, evs []*Event) bool {
			key := nm + what
			for _, e := range evs {
				c.ob(rule, key+" only closes", e.method == "Close", "%s", c.descOutcome(o))
				if errState(o.st, e.res[0]) > 0 {
					c.ob(rule, key+" reports failures", errState(o.st, o.rets[0]) > 0, "%s", c.descOutcome(o))
				} else {
					s.okOut(key, o)
				}
			}
			c.ob(rule, key+" closes the body", len(p.open) == 0, "%v stays open: %s", p.open, c.descOutcome(o))
			p.kept = false
			return true
		})
		for _, p := range closed {
			s.boolean("IsOpen after "+what, []*State{p.st}, "IsOpen", false)
		}
		reads(closed, "Read after "+what)
		for _, m := range []string{"Write", "Flush"} {
			arg := a
			if m == "Flush" {
				arg = nil
			}
			step(closed, m+" after "+what, m, arg, nil, func(p *hpath, o Outcome, evs []*Event) bool {
				s.isKind(nm+m+" after "+what, o, "NOT_OPEN")
				c.ob(rule, nm+m+" after "+what+" does nothing", len(evs) == 0, "%s", c.descOutcome(o))
				return false
			})
		}
		step(closed, what+" again", "Close", nil, nil, func(p *hpath, o Outcome, evs []*Event) bool {
			s.okOut(nm+what+" again", o)
			c.ob(rule, nm+what+" again does nothing", len(evs) == 0, "%s", c.descOutcome(o))
			return false
		})
	}
	for _, p := range fresh {
		s.boolean("IsOpen", []*State{p.st}, "IsOpen", true)
		s.boolean("Peek", []*State{p.st}, "Peek", true)
	}
	reads(fresh, "Read")
	shut(fresh, "Close")
	if !post {
		for _, m := range []string{"Write", "Flush"} {
			arg := a
			if m == "Flush" {
				arg = nil
			}
			step(fresh, m, m, arg, nil, func(p *hpath, o Outcome, evs []*Event) bool {
				s.isKind(nm+m, o, "NOT_OPEN")
				c.ob(rule, nm+m+" does nothing", len(evs) == 0, "%s", c.descOutcome(o))
				return false
			})
		}
		return
	}
	one := flush(write(write(fresh, "Write", a, ca), "second Write", b, cb), "Flush")
	c.ob(rule, nm+"Flush reached", len(one) >= 3, "%d outcomes of the first request", len(one))
	reads(one, "Read after Flush")
	for _, p := range one {
		s.boolean("IsOpen after Flush", []*State{p.st}, "IsOpen", true)
	}
	shut(one, "Close after Flush")
	two := flush(write(one, "Write after Flush", b, cb), "Flush after Flush")
	c.ob(rule, nm+"second Flush reached", len(two) >= 9, "%d outcomes of two requests", len(two))
	reads(two, "Read after the second Flush")
	shut(two, "Close after two requests")
	_ = fmt.Sprint
}

func fieldNamed(obj *Val, name string) *Val {
	s := deref(obj.typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldAddr(obj, i)
		}
	}
	return nil
}
