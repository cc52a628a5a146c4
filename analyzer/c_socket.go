package main

// C14: the socket transports as a typestate over an abstract net.Conn.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = &check{run: runC14, min: 60,
		rule: "on every path of every method sequence from every constructor: a socket transport that is not open performs no network operation and reports NOT_OPEN; Open dials the configured address once with the configured timeout and leaves the transport open exactly when that succeeds; every read and write of the connection is preceded, in the same call, by setting its deadline to now plus the timeout, or to none; the connection receives exactly the bytes written, in order, by the time Flush succeeds and none of them reach a later connection; failures are reported as transport exceptions; Close closes the connection once",
		expl: "Abstract interpretation of call sequences on every transport type the package can construct from a net.Conn or a net.Addr. The connection, the address and the dialer are abstract: every operation may fail at any time.",
		asm:  []string{"net.Conn obeys the io contracts", "time.Now().Add(d) is the moment d from now", "the connection itself is not a Flusher of another kind"},
	}
}

// script follows method sequences over sets of states.
type script struct {
	*lab
	name string
	recv *Val
}

// run calls a method in each state; judge sees every outcome and says which to keep.
func (s *script) run(key string, sts []*State, m string, args []*Val, judge func(o Outcome) bool) []*State {
	var r []*State
	key = s.name + " " + key
	if len(sts) == 0 {
		s.c.undecided(s.rule, key, "the state is not reached")
		return nil
	}
	if len(sts) > 400 {
		s.c.undecided(s.rule, key, "too many states")
		return nil
	}
	for _, st := range sts {
		st = st.clone()
		st.trace = nil
		for _, o := range s.meth(st, s.recv, m, append([]*Val(nil), args...)...) {
			if o.kind == XCut {
				continue
			}
			if !s.c.ob(s.rule, key+" returns", o.kind == XReturn, "%s", s.c.descOutcome(o)) {
				continue
			}
			if judge == nil || judge(o) {
				r = append(r, o.st)
			}
		}
	}
	return r
}

// excKind is the TypeId of an error made by the package.
func (l *lab) excKind(key string, st *State, e *Val) *Val {
	v := unwrap(st.facts.simp(e))
	if v.op == OAtom || isIface(v.typ) || l.c.prog.MethodByName(v.typ, "TypeId") == nil {
		l.c.ob(l.rule, key+" is an exception", false, "%v has no exception kind", v)
		return nil
	}
	o, ok := l.one(key, l.meth(st, v, "TypeId"))
	if !ok {
		return nil
	}
	return o.st.facts.simp(o.rets[0])
}

func (l *lab) isKind(key string, o Outcome, name string) bool {
	c := l.c.prog.ConstVal(name)
	if !l.c.need("constant "+name, c != nil) {
		return false
	}
	e := o.rets[len(o.rets)-1]
	if !l.c.ob(l.rule, key, errState(o.st, e) > 0, "no error is reported: %s", l.c.descOutcome(o)) {
		return false
	}
	k := l.excKind(key, o.st, e)
	if k == nil {
		return false
	}
	want, _ := constant.Int64Val(c.Val())
	got, ok := k.i64()
	return l.c.ob(l.rule, key, ok && got == want, "the error is of type %v, not %s: %s", k, name, l.c.descOutcome(o))
}

// ok: the call reports no error.
func (l *lab) okOut(key string, o Outcome) bool {
	return l.c.ob(l.rule, key, errState(o.st, o.rets[len(o.rets)-1]) < 0, "an error is reported: %s", l.c.descOutcome(o))
}

func netMethod(ci *callInfo) string {
	if ci.iface && ci.fn != nil && ci.recv != nil && (strings.Contains(ci.name, "net.Conn") || strings.Contains(ci.name, "io.") || strings.Contains(ci.name, "Flusher")) {
		return ci.fn.Name()
	}
	return ""
}

// netModel: net.Conn, net.Dial and the clock.
func netModel(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	ev := func(s *State, name string, args []*Val, res ...*Val) {
		e := &Event{kind: EvCall, name: name, method: name, recv: ci.recv, args: args, res: res, pos: ci.pos, in: ci.in}
		for _, a := range args {
			if isSlice(a.typ) {
				a = in.content(s, a)
			}
			e.snaps = append(e.snaps, a)
		}
		s.add(e)
	}
	if ci.sfn != nil && ci.sfn.Pkg != nil {
		switch p, n := ci.sfn.Pkg.Pkg.Path(), ci.sfn.Name(); {
		case p == "time" && n == "Now":
			return one(atom(ci.sig.Results().At(0).Type(), st.label("now")))
		case p == "time" && n == "Add" && ci.recv != nil:
			return one(mk(OCall, ci.sig.Results().At(0).Type(), "time.Add", ci.recv, ci.args[len(ci.args)-1]))
		case p == "net" && (n == "Dial" || n == "DialTimeout"):
			rs := ci.sig.Results()
			var to *Val
			args := ci.args
			if ci.recv != nil { // net.Dialer
				args = ci.args[len(ci.args)-2:]
				if a := in.dialTimeout(st, ci.recv); a != nil {
					to = a
				}
			} else if n == "DialTimeout" {
				to = args[2]
			}
			if to == nil {
				to = mkIntT(tI64, 0)
			}
			all := []*Val{args[0], args[1], to}
			bad := st.clone()
			conn := newErr(st, rs.At(0).Type(), "dialed")
			ev(st, "dial", all, conn, mkNil(tError))
			e := newErr(bad, tError, "dial-error")
			ev(bad, "dial", all, mkNil(rs.At(0).Type()), e)
			return []modelOut{{st: st, res: []*Val{conn, mkNil(tError)}}, {st: bad, res: []*Val{mkNil(rs.At(0).Type()), e}}}, true
		}
	}
	addrOf := ci.iface && ci.fn != nil && strings.Contains(ci.name, "net.Addr")
	if addrOf {
		return one(mk(OCall, ci.sig.Results().At(0).Type(), "."+ci.fn.Name(), unwrap(ci.recv)))
	}
	switch m := netMethod(ci); m {
	case "RemoteAddr", "LocalAddr":
		return one(mk(OCall, ci.sig.Results().At(0).Type(), "."+m, unwrap(ci.recv)))
	case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		ev(st, m, ci.args, mkNil(tError))
		return one(mkNil(tError))
	case "Close", "Flush":
		bad := st.clone()
		ev(st, m, nil, mkNil(tError))
		e := newErr(bad, tError, "conn-error")
		ev(bad, m, nil, e)
		return []modelOut{{st: st, res: []*Val{mkNil(tError)}}, {st: bad, res: []*Val{e}}}, true
	case "Write":
		bad := st.clone()
		n := mkLen(ci.args[0])
		ev(st, m, ci.args, n, mkNil(tError))
		e := newErr(bad, tError, "write-error")
		k := atom(tInt, bad.label("short"))
		bad.facts.refine(k, Range{big.NewInt(0), big.NewInt(1 << 40)})
		bad.facts.assume(mkLtInt(k, n), true)
		ev(bad, m, ci.args, k, e)
		return []modelOut{{st: st, res: []*Val{n, mkNil(tError)}}, {st: bad, res: []*Val{k, e}}}, true
	case "Read":
		return readCases(in, st, ci, ev), true
	}
	return pureErrorText(in, st, ci)
}

// readCases: a Read of any count with no error, io.EOF or another error.
func readCases(in *Interp, st *State, ci *callInfo, ev func(s *State, name string, args []*Val, res ...*Val)) []modelOut {
	var outs []modelOut
	b := ci.args[0]
	for v := 0; v < 3; v++ {
		s := st.clone()
		n := atom(tInt, s.label("got"))
		s.facts.refine(n, Range{big.NewInt(0), big.NewInt(1 << 40)})
		if !s.facts.assume(mkLtInt(mkLen(b), n), false) {
			continue
		}
		e := mkNil(tError)
		switch v {
		case 1:
			e = in.extVar(s, "io", "EOF")
			if e == nil {
				continue
			}
		case 2:
			e = newErr(s, tError, "read-error")
		}
		data := seqAtom(types.NewSlice(tByte), s.label("data"), n)
		ev(s, "Read", ci.args, n, e)
		if b.op == OView {
			in.setContent(s, mk(OView, b.typ, "", b.args[0], b.args[1], n), data)
		}
		outs = append(outs, modelOut{st: s, res: []*Val{n, e}})
	}
	return outs
}

// dialTimeout reads the Timeout field of a net.Dialer.
func (in *Interp) dialTimeout(st *State, d *Val) *Val {
	s, ok := deref(d.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Timeout" {
			return in.load(st, fieldAddr(d, i))
		}
	}
	return nil
}

func connEvents(st *State) []*Event {
	var r []*Event
	for _, e := range st.trace.list() {
		if e.kind != EvCall {
			continue
		}
		switch e.method {
		case "dial", "Read", "Write", "Close", "Flush", "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			r = append(r, e)
		}
	}
	return r
}

func only(st *State, m string) []*Event {
	var r []*Event
	for _, e := range connEvents(st) {
		if e.method == m {
			r = append(r, e)
		}
	}
	return r
}

func named(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil && o.Pkg().Path() != "" {
			return o.Pkg().Name() + "." + o.Name()
		}
		return o.Name()
	}
	return t.String()
}

func runC14(c *Ctx) {
	rule := "socket"
	tn, _ := c.prog.Type("TTransport").(*types.Named)
	if !c.need("interface TTransport", tn != nil) {
		return
	}
	tt := tn.Underlying().(*types.Interface)
	var server *types.Interface
	if x, _ := c.prog.Type("TServerTransport").(*types.Named); x != nil {
		server = x.Underlying().(*types.Interface)
	}
	var ctors []*ssa.Function
	for n, m := range c.prog.Thrift.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "New") || len(f.Params) == 0 || f.Signature.Results().Len() == 0 || len(f.Blocks) == 0 {
			continue
		}
		k := named(f.Params[0].Type())
		if (k == "net.Conn" || k == "net.Addr") && types.Implements(f.Signature.Results().At(0).Type(), tt) && (server == nil || !types.Implements(f.Signature.Results().At(0).Type(), server)) {
			ctors = append(ctors, f)
		}
	}
	sortFns(ctors)
	c.ob(rule, "constructors found", len(ctors) >= 6, "%d", len(ctors))
	for _, f := range ctors {
		c.socket(rule, f)
	}
}

func sortFns(fs []*ssa.Function) {
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fs[j].Name() < fs[i].Name() {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
}

func (c *Ctx) socket(rule string, f *ssa.Function) {
	s := &script{lab: c.newLab(rule, Config{Unroll: 3, PossiblePanics: true, Model: netModel}), name: f.Name()}
	st := s.in.start()
	var args []*Val
	var conn, addr *Val
	timeout := mkIntT(tI64, 0)
	for _, p := range f.Params {
		a := atom(p.Type(), p.Name())
		switch named(p.Type()) {
		case "net.Conn":
			conn = a
			st.facts.isnil[a] = false
			addr = mk(OCall, a.typ, ".RemoteAddr", a)
			// its type is net.Addr
			if m := ifaceMethod(p.Type(), "RemoteAddr"); m != nil {
				addr = mk(OCall, m.Type().(*types.Signature).Results().At(0).Type(), ".RemoteAddr", a)
			}
		case "net.Addr":
			addr = a
		case "int64":
			timeout = a
		default:
			c.undecided(rule, s.name, "a parameter of type %v", p.Type())
			return
		}
		args = append(args, a)
	}
	st.facts.isnil[addr] = false
	bad := st.clone()
	if conn == nil {
		delete(bad.facts.isnil, addr)
		bad.facts.isnil[addr] = true
	}
	mkT := func(st *State) (*State, bool) {
		o, ok := s.one(s.name, s.run0(f, st, args))
		if !ok {
			return nil, false
		}
		s.recv = unwrap(o.rets[0])
		c.ob(rule, s.name+" performs no network operation", len(connEvents(o.st)) == 0, "%s", c.descOutcome(o))
		return o.st, true
	}
	if conn == nil {
		if t, ok := mkT(bad); ok {
			s.run("Open of a nil address", []*State{t}, "Open", nil, func(o Outcome) bool {
				s.isKind(s.name+" Open of a nil address", o, "NOT_OPEN")
				c.ob(rule, s.name+" Open of a nil address does not dial", len(connEvents(o.st)) == 0, "%s", c.descOutcome(o))
				return false
			})
		}
	}
	t, ok := mkT(st)
	if !ok {
		return
	}
	s.open(conn, addr, timeout, t)
}

func ifaceMethod(t types.Type, name string) *types.Func {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i)
		}
	}
	return nil
}

func (s *script) run0(f *ssa.Function, st *State, args []*Val) []Outcome {
	return s.lab.run(f.Name(), f, st, append([]*Val(nil), args...)...)
}

func (s *script) boolean(key string, sts []*State, m string, want bool) {
	s.run(key, sts, m, nil, func(o Outcome) bool {
		b, known := o.st.facts.simp(o.rets[0]).boolConst()
		s.c.ob(s.rule, s.name+" "+key, known && b == want && len(connEvents(o.st)) == 0, "%s is %v: %s", m, o.rets[0], s.c.descOutcome(o))
		return false
	})
}

// deadline: the last setting of that deadline before event i is now+timeout, or none.
func (s *script) deadline(key string, o Outcome, m string, timeout *Val) {
	c := s.c
	evs := connEvents(o.st)
	which := "Set" + m + "Deadline"
	for i, e := range evs {
		if e.method != m {
			continue
		}
		var d *Event
		for _, x := range evs[:i] {
			if (x.method == which || x.method == "SetDeadline") && unwrap(x.recv) == unwrap(e.recv) {
				d = x
			}
		}
		if !c.ob(s.rule, key+" sets the deadline first", d != nil, "%s", c.descOutcome(o)) {
			return
		}
		t := d.args[0]
		pos := o.st.facts.eval(mkLtInt(mkIntT(tI64, 0), timeout))
		switch {
		case pos > 0:
			ok := t.op == OCall && t.aux == "time.Add" && t.args[0].op == OAtom && strings.HasPrefix(t.args[0].aux, "now") && sameVal(o.st.facts, convert(t.args[1], tI64), timeout)
			c.ob(s.rule, key+" deadline is the timeout from now", ok, "the deadline is %v for timeout %v: %s", t, timeout, c.descOutcome(o))
		case pos < 0:
			c.ob(s.rule, key+" no deadline without timeout", t == zeroVal(t.typ), "the deadline is %v without a timeout: %s", t, c.descOutcome(o))
		default:
			c.ob(s.rule, key+" deadline follows the timeout", false, "the deadline %v does not depend on the timeout %v: %s", t, timeout, c.descOutcome(o))
		}
	}
}

// reported: the call reports the failure of the last connection event.
func (s *script) reported(key string, o Outcome, e *Val) {
	r := o.rets[len(o.rets)-1]
	if !s.c.ob(s.rule, key+" reports failures", errState(o.st, r) > 0, "%s", s.c.descOutcome(o)) {
		return
	}
	if unwrap(r) == unwrap(e) { // passed on because it is an exception already
		c := s.c.prog.Type("TTransportException")
		s.c.ob(s.rule, key+" is an exception", c != nil && o.st.facts.eval(implKey(unwrap(e), c)) > 0, "%v is passed on as it is: %s", e, s.c.descOutcome(o))
		return
	}
	if e == s.in.extVar(o.st.clone(), "io", "EOF") {
		s.isKind(key+" end of file", o, "END_OF_FILE")
		return
	}
	s.c.ob(s.rule, key+" keeps the cause", holds(o.st, unwrap(r), e), "%v does not come from %v", r, e)
	s.excKind(key+" failure", o.st, r)
}

func (s *script) open(conn, addr, timeout *Val, t *State) {
	c, rule := s.c, s.rule
	none := func(key string, o Outcome) {
		c.ob(rule, key+" does nothing", len(connEvents(o.st)) == 0, "%s", c.descOutcome(o))
	}
	nm := s.name + " "
	size := func(st *State, l string) *Val {
		v := atom(tInt, l)
		st.facts.refine(v, Range{big.NewInt(1), big.NewInt(1 << 28)})
		return v
	}
	bs := types.NewSlice(tByte)
	la, lb := size(t, "size.a"), size(t, "size.b")
	a, b := s.in.userBuf(t, "a", la), s.in.userBuf(t, "b", lb)
	ca, cb := seqAtom(bs, "a", la), seqAtom(bs, "b", lb)
	closedOps := func(st []*State, what string) {
		s.boolean(what+" IsOpen", st, "IsOpen", false)
		s.boolean(what+" Peek", st, "Peek", false)
		for _, m := range []string{"Read", "ReadAll", "Write", "Flush"} {
			args := []*Val{a}
			if m == "Flush" {
				args = nil
			}
			k := what + " " + m
			for _, x := range st {
				s.run(k, []*State{x}, m, args, func(o Outcome) bool {
					s.isKind(nm+k, o, "NOT_OPEN")
					none(nm+k, o)
					return false
				})
			}
		}
		s.run(what+" Close", st, "Close", nil, func(o Outcome) bool {
			s.okOut(nm+what+" Close", o)
			none(nm+what+" Close", o)
			return false
		})
	}
	dial := func(sts []*State, what string) []*State {
		return s.run(what, sts, "Open", nil, func(o Outcome) bool {
			key := nm + what
			f := o.st.facts
			evs := connEvents(o.st)
			net, adr := mk(OCall, tString, ".Network", addr), mk(OCall, tString, ".String", addr)
			if f.eval(mkEq(mkLen(net), mkInt(0))) > 0 || f.eval(mkEq(mkLen(adr), mkInt(0))) > 0 {
				s.isKind(key+" of an empty address", o, "NOT_OPEN")
				none(key+" of an empty address", o)
				return false
			}
			if isn, known := f.nilness(addr); known && isn {
				s.isKind(key+" of no address", o, "NOT_OPEN")
				none(key+" of no address", o)
				return false
			}
			if !c.ob(rule, key+" dials once", len(evs) == 1 && evs[0].method == "dial", "%s", c.descOutcome(o)) {
				return false
			}
			d := evs[0]
			c.ob(rule, key+" dials the address", sameVal(f, d.args[0], net) && sameVal(f, d.args[1], adr), "dials %v %v for address %v", d.args[0], d.args[1], addr)
			got := convert(d.args[2], tI64)
			z := mkIntT(tI64, 0)
			switch f.eval(mkLtInt(z, timeout)) {
			case 1:
				c.ob(rule, key+" dials with the timeout", sameVal(f, got, timeout), "timeout %v for %v: %s", got, timeout, c.descOutcome(o))
			case -1:
				c.ob(rule, key+" dials without a timeout", f.eval(mkLtInt(z, got)) < 0, "timeout %v for %v: %s", got, timeout, c.descOutcome(o))
			default:
				c.ob(rule, key+" dials with the timeout", sameVal(f, got, timeout), "timeout %v does not depend on %v: %s", got, timeout, c.descOutcome(o))
			}
			if errState(o.st, d.res[1]) > 0 {
				if s.isKind(key+" failing", o, "NOT_OPEN") {
					s.boolean("IsOpen after "+what+" failed", []*State{o.st}, "IsOpen", false)
				}
				return false
			}
			s.okOut(key, o)
			return true
		})
	}
	var opened []*State
	if conn == nil {
		closedOps([]*State{t}, "closed")
		opened = dial([]*State{t}, "Open")
	} else {
		opened = []*State{t}
	}
	s.boolean("open IsOpen", opened, "IsOpen", true)
	s.boolean("open Peek", opened, "Peek", true)
	s.run("open Open", opened, "Open", nil, func(o Outcome) bool {
		s.isKind(nm+"Open when open", o, "ALREADY_OPEN")
		none(nm+"Open when open", o)
		return false
	})
	link := func(o Outcome) *Val { // the connection in use
		if conn != nil {
			return conn
		}
		return nil
	}
	reads := func(sts []*State, what string, timeout *Val) {
		s.run(what, sts, "Read", []*Val{a}, func(o Outcome) bool {
			key := nm + what
			rs := only(o.st, "Read")
			if !c.ob(rule, key+" reads once", len(rs) == 1 && len(only(o.st, "Write")) == 0 && len(only(o.st, "Close")) == 0, "%s", c.descOutcome(o)) {
				return false
			}
			if l := link(o); l != nil {
				c.ob(rule, key+" reads from the connection", unwrap(rs[0].recv) == l, "reads from %v", rs[0].recv)
			}
			s.deadline(key, o, "Read", timeout)
			c.ob(rule, key+" reads into the caller's buffer", rs[0].args[0] == a, "reads into %v", rs[0].args[0])
			c.ob(rule, key+" returns the count", sameVal(o.st.facts, o.rets[0], rs[0].res[0]), "%v for %v", o.rets[0], rs[0].res[0])
			if e := rs[0].res[1]; errState(o.st, e) < 0 {
				s.okOut(key+" succeeds", o)
			} else {
				s.reported(key, o, e)
			}
			return false
		})
	}
	reads(opened, "Read", timeout)
	tmo := atom(tI64, "new-timeout")
	set := s.run("SetTimeout", opened, "SetTimeout", []*Val{tmo}, func(o Outcome) bool {
		return s.okOut(nm+"SetTimeout", o)
	})
	reads(set, "Read after SetTimeout", tmo)

	// writing
	type path struct {
		st  *State
		got *Val
	}
	empty := mkSeq(bs, nil, nil)
	play := func(ps []path, what string, timeout *Val, m string, args ...*Val) []path {
		var r []path
		for _, p := range ps {
			s.run(what, []*State{p.st}, m, args, func(o Outcome) bool {
				key := nm + what
				got := p.got
				var e *Val
				for _, x := range connEvents(o.st) {
					switch x.method {
					case "Write":
						if l := link(o); l != nil {
							c.ob(rule, key+" writes to the connection", unwrap(x.recv) == l, "writes to %v", x.recv)
						}
						got = mkSeq(bs, []*Val{got, x.snaps[0]}, []byte("ss"))
						if errState(o.st, x.res[1]) > 0 && e == nil {
							e = x.res[1]
						}
					case "Flush":
						if errState(o.st, x.res[0]) > 0 && e == nil {
							e = x.res[0]
						}
					case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
					default:
						c.ob(rule, key+" only writes", false, "%s", c.descOutcome(o))
					}
				}
				s.deadline(key, o, "Write", timeout)
				if e != nil {
					s.reported(key, o, e)
					return false
				}
				if !s.okOut(key+" succeeds", o) {
					return false
				}
				if m == "Write" {
					c.ob(rule, key+" counts what it takes", sameVal(o.st.facts, o.rets[0], mkLen(args[0])), "%v of %v", o.rets[0], mkLen(args[0]))
				}
				r = append(r, path{o.st, got})
				return false
			})
		}
		return r
	}
	sent := func(ps []path, what string, parts ...*Val) {
		c.ob(rule, nm+what+" reached", len(ps) > 0, "no path succeeds")
		for _, p := range ps {
			f := p.st.facts
			var q seqb
			for _, x := range parts {
				q.splice(x)
			}
			g, w := f.simp(p.got), f.simp(q.seq())
			c.ob(rule, nm+what, g == w || sameContent(f, g, w), "the connection receives %v, written is %v; %s", g, w, fmt.Sprint(p.st.log))
		}
	}
	var w0 []path
	for _, x := range opened {
		w0 = append(w0, path{x, empty})
	}
	w1 := play(w0, "Write", timeout, "Write", a)
	w2 := play(w1, "second Write", timeout, "Write", b)
	fl := play(w2, "Flush", timeout, "Flush")
	sent(fl, "Flush has sent everything in order", ca, cb)
	for i := range fl {
		fl[i].got = empty
	}
	again := play(fl, "second Flush", timeout, "Flush")
	sent(again, "second Flush sends nothing again")
	for i := range fl {
		fl[i].got = empty
	}
	w3 := play(play(fl, "Write after Flush", timeout, "Write", b), "Flush after Flush", timeout, "Flush")
	sent(w3, "the next Flush sends only what was written since", cb)
	if len(set) > 0 {
		var wt []path
		for _, x := range set {
			wt = append(wt, path{x, empty})
		}
		play(play(wt, "Write after SetTimeout", tmo, "Write", a), "Flush after SetTimeout", tmo, "Flush")
	}

	// closing
	shut := func(sts []*State, what string) []*State {
		return s.run(what, sts, "Close", nil, func(o Outcome) bool {
			key := nm + what
			cl := only(o.st, "Close")
			if !c.ob(rule, key+" closes the connection once", len(cl) == 1, "%s", c.descOutcome(o)) {
				return false
			}
			if l := link(o); l != nil {
				c.ob(rule, key+" closes the connection", unwrap(cl[0].recv) == l, "closes %v", cl[0].recv)
			}
			if errState(o.st, cl[0].res[0]) > 0 {
				c.ob(rule, key+" reports failures", errState(o.st, o.rets[0]) > 0, "%s", c.descOutcome(o))
				return false
			}
			return s.okOut(key, o)
		})
	}
	cl := shut(opened, "Close")
	closedOps(cl, "after Close")
	if conn != nil {
		for i, x := range cl {
			cl[i] = x.clone()
			cl[i].facts.isnil[addr] = false
		}
	}
	link = func(o Outcome) *Val { return nil }
	re := dial(cl, "Open after Close")
	s.boolean("IsOpen after reopening", re, "IsOpen", true)
	// what the old connection did not take stays out of the new one
	var left []*State
	for _, p := range w1 {
		left = append(left, p.st)
	}
	var ps []path
	for _, x := range dial(shut(left, "Close with unsent data"), "Open after Close with unsent data") {
		ps = append(ps, path{x, empty})
	}
	sent(play(play(ps, "Write on a new connection", timeout, "Write", b), "Flush on a new connection", timeout, "Flush"), "a new connection receives only what was written to it", cb)
}

var big1, big28 = big.NewInt(1), big.NewInt(1 << 28)

// sameContent: equal sequences once empty parts are left out.
func sameContent(f *Facts, a, b *Val) bool {
	drop := func(v *Val) *Val {
		if v.op != OSeq {
			v = mkSeq(v.typ, []*Val{v}, []byte{'s'})
		}
		var q seqb
		for i, x := range v.args {
			if v.aux[i] == 's' {
				if z, ok := f.simpConst(mkLen(x)).i64(); ok && z == 0 {
					continue
				}
				q.splice(x)
			} else {
				q.bytes(x)
			}
		}
		return q.seq()
	}
	return drop(a) == drop(b)
}
