package main

// Servers: accepting, wiring and processing of connections (C12), and what
// other goroutines may call while a server runs (C13).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = &check{run: runC12, min: 20,
		rule: "on every path of every TServer's Serve: Listen comes first and its error ends it; each accepted client is handled once, with the processor, transports and protocols the factories make for it; Process is called until it reports an error or false and never after; both transports are closed when the handling ends, also by a panic, and not before; an Accept error ends Serve with that error; once Stop is observed there is no further Accept and Serve returns nil; the flag is looked at before every Accept; Stop interrupts the server transport after the flag is set",
		expl: "Abstract interpretation of every constructor, accessor, Serve and Stop method of every type implementing TServer with abstract server transport, factories and processor; goroutine bodies are followed in line; at every synchronisation operation the effects of a concurrent Stop may appear.",
		asm:  []string{"factories, processors and transports are arbitrary but do not modify the server"},
	}
}

func runC12(c *Ctx) {
	rule := "server"
	ts, _ := c.prog.Type("TServer").(*types.Named)
	if !c.need("interface TServer", ts != nil) {
		return
	}
	it := ts.Underlying().(*types.Interface)
	n := 0
	for _, t := range c.prog.implementors(it) {
		name := types.TypeString(deref(t), qual)
		full := 0
		for _, f := range c.prog.ctorsOf(t) {
			n++
			if c.serverCtor(rule, f, t) {
				full++
				c.serverRun(rule, name, f, t)
			}
		}
		c.ob(rule, name+" has a constructor taking every part", full >= 1, "%d found", full)
	}
	c.ob(rule, "server constructors", n >= 8, "%d constructors", n)
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ctorsOf lists the exported functions whose first result is the type.
func (p *Program) ctorsOf(t types.Type) []*ssa.Function {
	var r []*ssa.Function
	for n, m := range p.Thrift.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "New") || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 {
			continue
		}
		if types.Identical(f.Signature.Results().At(0).Type(), t) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

var serverParts = []string{"TProcessorFactory", "TServerTransport", "TTransportFactory", "TTransportFactory", "TProtocolFactory", "TProtocolFactory"}
var serverGets = []string{"ProcessorFactory", "ServerTransport", "InputTransportFactory", "OutputTransportFactory", "InputProtocolFactory", "OutputProtocolFactory"}

// serverCtor decides that a constructor stores what it is given; true when it takes every part.
func (c *Ctx) serverCtor(rule string, f *ssa.Function, t types.Type) bool {
	l := c.newLab(rule, Config{})
	st := l.in.start()
	var args []*Val
	by := map[string][]*Val{}
	for i, p := range f.Params {
		n, _ := p.Type().(*types.Named)
		k := "?"
		if n != nil {
			k = n.Obj().Name()
		}
		a := atom(p.Type(), fmt.Sprintf("%s%d", k, i))
		st.facts.isnil[a] = false
		args = append(args, a)
		by[k] = append(by[k], a)
	}
	o, ok := l.one(f.Name(), l.run(f.Name(), f, st, args...))
	if !ok {
		return false
	}
	seen := map[string]int{}
	for i, g := range serverGets {
		k := serverParts[i]
		key := f.Name() + " " + g
		r, ok := l.one(key, l.meth(o.st, o.rets[0], g))
		if !ok {
			continue
		}
		got := r.rets[0]
		vs := by[k]
		switch {
		case len(vs) > 0:
			w := vs[min(seen[k], len(vs)-1)]
			seen[k]++
			c.ob(rule, key, unwrap(got) == w, "is %v, the constructor was given %v", got, w)
		case k == "TProcessorFactory" && len(by["TProcessor"]) > 0:
			x := atom(c.prog.Type("TTransport"), "client")
			if q, ok := l.one(key, l.meth(r.st, got, "GetProcessor", x)); ok {
				c.ob(rule, key, unwrap(q.rets[0]) == by["TProcessor"][0], "the factory gives %v, the constructor was given %v", q.rets[0], by["TProcessor"][0])
			}
		case k == "TTransportFactory":
			x := atom(c.prog.Type("TTransport"), "client")
			if q, ok := l.one(key, l.meth(r.st, got, "GetTransport", x)); ok {
				c.ob(rule, key, unwrap(q.rets[0]) == x, "the default factory gives %v for the client's transport", q.rets[0])
			}
		case k == "TProtocolFactory":
			x := atom(c.prog.Type("TTransport"), "client")
			if q, ok := l.one(key, l.meth(r.st, got, "GetProtocol", x)); ok {
				v := unwrap(q.rets[0])
				c.ob(rule, key, strings.HasSuffix(types.TypeString(v.typ, qual), "TBinaryProtocol"), "the default protocol is %s", types.TypeString(v.typ, qual))
				if q2, ok := l.one(key, l.meth(q.st, q.rets[0], "Transport")); ok {
					c.ob(rule, key, unwrap(q2.rets[0]) == x, "the default protocol is on %v", q2.rets[0])
				}
			}
		default:
			c.ob(rule, key, false, "nothing given for it")
		}
	}
	return len(f.Params) == 6 && len(by["TProcessorFactory"]) == 1 && len(by["TServerTransport"]) == 1
}

// syncOp recognises operations at which another goroutine's effects may appear.
func syncOp(ci *callInfo) (kind string, addr *Val) {
	n := ci.name
	m := n[strings.LastIndex(n, ".")+1:]
	switch {
	case strings.HasPrefix(n, "sync/atomic."):
		if len(ci.args) == 0 {
			return "", nil
		}
		switch {
		case strings.HasPrefix(m, "Load"):
			return "load", ci.args[0]
		case strings.HasPrefix(m, "Store"):
			return "store", ci.args[0]
		case strings.HasPrefix(m, "CompareAndSwap"), strings.HasPrefix(m, "Swap"), strings.HasPrefix(m, "Add"):
			return "rmw", ci.args[0]
		}
	case strings.HasPrefix(n, "(*sync/atomic."):
		switch m {
		case "Load":
			return "load", ci.recv
		case "Store":
			return "store", ci.recv
		case "CompareAndSwap", "Swap", "Add":
			return "rmw", ci.recv
		}
	case strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex)."):
		switch m {
		case "Lock", "RLock":
			return "lock", ci.recv
		case "Unlock", "RUnlock":
			return "unlock", ci.recv
		}
	}
	return "", nil
}

// syncModel gives sync operations their sequential meaning.
func (in *Interp) syncModel(st *State, ci *callInfo) ([]modelOut, bool) {
	k, a := syncOp(ci)
	if k == "" {
		return nil, false
	}
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	cell := a
	if strings.HasPrefix(ci.name, "(*") && k != "lock" && k != "unlock" {
		vt := ci.sig.Results()
		var t types.Type
		switch {
		case k == "load":
			t = vt.At(0).Type()
		case len(ci.args) > 0:
			t = ci.args[len(ci.args)-1].typ
		}
		if t == nil {
			return nil, false
		}
		cell = mk(OFieldAddr, types.NewPointer(t), "atomic", a)
		if _, ok := st.heap[cell]; !ok {
			if rootObj(a).op == OObj {
				st.heap[cell] = zeroVal(t)
			} else {
				st.heap[cell] = in.unknown(st, t, "atomic")
			}
		}
	}
	vargs := ci.args
	if !strings.HasPrefix(ci.name, "(*") && len(vargs) > 0 {
		vargs = vargs[1:]
	}
	m := ci.name[strings.LastIndex(ci.name, ".")+1:]
	switch {
	case k == "lock":
		st.ext["lock:"+a.String()]++
		return one()
	case k == "unlock":
		st.ext["lock:"+a.String()]--
		return one()
	case k == "load":
		return one(in.load(st, cell))
	case k == "store" && len(vargs) == 1:
		in.store(st, cell, vargs[0])
		return one()
	case strings.HasPrefix(m, "Swap") && len(vargs) == 1:
		v := in.load(st, cell)
		in.store(st, cell, vargs[0])
		return one(v)
	case strings.HasPrefix(m, "Add") && len(vargs) == 1:
		v := binopAdd(in.load(st, cell), vargs[0])
		in.store(st, cell, v)
		return one(v)
	case strings.HasPrefix(m, "CompareAndSwap") && len(vargs) == 2:
		cur := in.load(st, cell)
		no := st.clone()
		var outs []modelOut
		if st.facts.assume(mkEq(cur, vargs[0]), true) {
			in.store(st, cell, vargs[1])
			outs = append(outs, modelOut{st: st, res: []*Val{mkBool(true)}})
		}
		if no.facts.assume(mkEq(cur, vargs[0]), false) {
			outs = append(outs, modelOut{st: no, res: []*Val{mkBool(false)}})
		}
		return outs, true
	}
	return nil, false
}

// serverRun analyses Serve and Stop of one server type.
func (c *Ctx) serverRun(rule, name string, ctor *ssa.Function, t types.Type) {
	var stopMem map[*Val]*Val // what Stop leaves in the server
	var before map[*Val]*Val
	var serverObj *Val
	client := 0
	_ = client
	cfg := Config{RunGo: true, Unroll: 3, PossiblePanics: true}
	cfg.MayPanic = func(ev *Event) bool { return ev.method == "Process" && !ev.dfr }
	cfg.Model = func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
		k, _ := syncOp(ci)
		if stopMem != nil && (k == "load" || k == "lock" || k == "rmw") {
			// a concurrent Stop may have happened
			var outs []modelOut
			if st.ext["stop"] == 0 {
				s2 := st.clone()
				for a, v := range stopMem {
					s2.heap[a] = v
				}
				s2.ext["stop"] = 1
				s2.add(&Event{kind: EvMark, name: "look", method: "stop-seen", pos: ci.pos, in: ci.in})
				if o, ok := in.syncModel(s2, ci); ok {
					outs = append(outs, o...)
				}
			}
			if st.ext["stop"] > 0 { // it stays stopped
				for a, v := range stopMem {
					st.heap[a] = v
				}
			}
			st.add(&Event{kind: EvMark, name: "look", method: "look", pos: ci.pos, in: ci.in})
			if o, ok := in.syncModel(st, ci); ok {
				outs = append(outs, o...)
			}
			return outs, true
		}
		if o, ok := in.syncModel(st, ci); ok {
			return o, true
		}
		m := ""
		if ci.fn != nil {
			m = ci.fn.Name()
		}
		switch m {
		case "Accept":
			if !ci.iface {
				break
			}
			st.ext["client"]++
			rs := ci.sig.Results()
			mkOut := func(s *State, kind string) modelOut {
				k := s.ext["client"]
				cl, e := mkNil(rs.At(0).Type()), mkNil(rs.At(1).Type())
				switch kind {
				case "client":
					cl = atom(rs.At(0).Type(), fmt.Sprintf("client%d", k))
					s.facts.isnil[cl] = false
				case "error":
					e = newErr(s, rs.At(1).Type(), "accept-error")
				}
				s.add(&Event{kind: EvCall, name: "Accept " + kind, method: "Accept", recv: ci.recv, res: []*Val{cl, e}, pos: ci.pos, in: ci.in})
				return modelOut{st: s, res: []*Val{cl, e}}
			}
			a, b := st.clone(), st.clone()
			return []modelOut{mkOut(st, "client"), mkOut(a, "error"), mkOut(b, "none")}, true
		case "GetTransport":
			if st.ext["client"] > 1 {
				rt := ci.sig.Results().At(0).Type()
				r := atom(rt, st.label("transport"))
				st.facts.isnil[r] = false
				st.add(&Event{kind: EvCall, name: ci.name, method: m, recv: ci.recv, args: ci.args, res: []*Val{r}, pos: ci.pos, in: ci.in})
				return []modelOut{{st: st, res: []*Val{r}}}, true
			}
		case "Process":
			if st.ext["client"] > 1 {
				rs := ci.sig.Results()
				r := []*Val{mkBool(false), mkNil(rs.At(1).Type())}
				st.add(&Event{kind: EvCall, name: ci.name, method: m, recv: ci.recv, args: ci.args, res: r, pos: ci.pos, in: ci.in})
				return []modelOut{{st: st, res: r}}, true
			}
		}
		return nil, false
	}
	l := c.newLab(rule, cfg)
	st := l.in.start()
	var args []*Val
	for i, p := range ctor.Params {
		a := atom(p.Type(), fmt.Sprintf("%s%d", serverParts[min(i, 5)], i))
		st.facts.isnil[a] = false
		args = append(args, a)
	}
	o, ok := l.one(name, l.run(name, ctor, st, args...))
	if !ok {
		return
	}
	pf, str, itf, otf, ipf, opf := args[0], args[1], args[2], args[3], args[4], args[5]
	serverObj = unwrap(o.rets[0])
	base := o.st
	base.trace = nil
	before = cp(base.heap)

	// Stop: the flag is set before the transport is interrupted
	var mem map[*Val]*Val
	l.in.cfg.OnCall = nil
	snap := map[*Event]map[*Val]*Val{}
	l.in.cfg.OnCall = func(in *Interp, st *State, ev *Event) {
		if ev.method == "Interrupt" {
			snap[ev] = cp(st.heap)
		}
	}
	for _, s := range l.meth(base, o.rets[0], "Stop") {
		key := name + ".Stop"
		if s.kind != XReturn {
			c.ob(rule, key, false, "%s", c.descOutcome(s))
			continue
		}
		n := 0
		for _, e := range s.st.trace.list() {
			if e.method == "Interrupt" && unwrap(e.recv) == str {
				n++
				ch := 0
				for a, v := range snap[e] {
					if before[a] != v && rootObj(a) == serverObj {
						ch++
					}
				}
				c.ob(rule, key+" sets the flag before it interrupts", ch > 0, "%s", c.descOutcome(s))
			}
		}
		c.ob(rule, key+" interrupts the server transport", n >= 1, "%s", c.descOutcome(s))
		mem = map[*Val]*Val{}
		for a, v := range s.st.heap {
			if before[a] != v && rootObj(a) == serverObj {
				mem[a] = v
			}
		}
	}
	l.in.cfg.OnCall = nil
	if mem == nil {
		return
	}
	stopMem = mem
	outs := l.meth(base, o.rets[0], "Serve")
	key := name + ".Serve"
	clients, closes, panics, stops := 0, 0, 0, 0
	for _, s := range outs {
		if s.kind == XCut {
			continue
		}
		bad := func(rule2, f string, a ...any) {
			c.ob(rule, key+" "+rule2, false, "%s: %s", fmt.Sprintf(f, a...), c.descOutcome(s))
		}
		good := func(rule2 string) { c.ob(rule, key+" "+rule2, true, "%s", key) }
		var evs []*Event
		for _, e := range s.st.trace.list() {
			if e.kind == EvCall || e.kind == EvMark {
				evs = append(evs, e)
			}
		}
		// listen first
		listened, looked, stopSeen := false, false, false
		var listenErr, acceptErr *Val
		var cur *Val // client being handled
		type conn struct {
			proc, it, ot, ip, op *Val
			procs                int
			done                 bool // the last Process reported the end
			goOn                 bool // it asked for another round
			broke                bool
			closed               map[*Val]bool
			nilsOK               bool
		}
		var k *conn
		finish := func() {
			if k == nil {
				return
			}
			closes++
			switch {
			case k.procs == 0 && !k.broke:
				bad("handles every client", "%v is accepted and not processed", cur)
			case !k.done && !k.broke:
				bad("processes until the end", "handling of %v ends although Process may have asked to go on", cur)
			default:
				good("handles every client")
				good("processes until the end")
			}
			for i, tr := range []*Val{k.it, k.ot} {
				if tr == nil {
					continue
				}
				if isnil, known := s.st.facts.nilness(tr); known && isnil {
					continue
				}
				what := []string{"input", "output"}[i]
				if k.closed[tr] {
					good("closes the " + what + " transport")
				} else {
					bad("closes the "+what+" transport", "%v of %v stays open", tr, cur)
				}
			}
			k = nil
		}
		for i, e := range evs {
			switch {
			case e.kind == EvMark && e.name == "look":
				looked = true
				if e.method == "stop-seen" {
					stopSeen = true
					stops++
				}
			case e.method == "Listen" && unwrap(e.recv) == str:
				if listened {
					bad("listens once", "Listen again")
				}
				listened = true
				listenErr = e.res[0]
			case e.method == "Accept" && unwrap(e.recv) == str:
				finish()
				if !listened {
					bad("listens first", "Accept before Listen")
				}
				if es := errState(s.st, listenErr); es >= 0 {
					bad("listens first", "Accept after Listen failed")
				} else {
					good("listens first")
				}
				if stopSeen {
					bad("stops", "Accept after Stop was seen")
				}
				if looked {
					good("looks at the flag before Accept")
				} else {
					bad("looks at the flag before Accept", "Accept %d", i)
				}
				looked = false
				cur = e.res[0]
				if e.name == "Accept client" {
					clients++
					k = &conn{closed: map[*Val]bool{}}
				}
				if e.name == "Accept error" {
					acceptErr = e.res[1]
				}
				if acceptErr != nil && e.name != "Accept error" {
					bad("reports Accept errors", "Accept again after an error")
				}
			case e.method == "GetProcessor":
				if unwrap(e.recv) != pf || k == nil || unwrap(e.args[0]) != cur {
					bad("wires the connection", "GetProcessor of %v for %v", e.recv, e.args)
				} else {
					k.proc = e.res[0]
				}
			case e.method == "GetTransport":
				r := unwrap(e.recv)
				if k == nil || unwrap(e.args[0]) != cur || r != itf && r != otf {
					bad("wires the connection", "GetTransport of %v for %v", e.recv, e.args)
				} else if r == itf {
					k.it = e.res[0]
				} else {
					k.ot = e.res[0]
				}
			case e.method == "GetProtocol":
				r := unwrap(e.recv)
				switch {
				case k != nil && r == ipf && k.it != nil && unwrap(e.args[0]) == k.it:
					k.ip = e.res[0]
				case k != nil && r == opf && k.ot != nil && unwrap(e.args[0]) == k.ot:
					k.op = e.res[0]
				default:
					bad("wires the connection", "GetProtocol of %v on %v", e.recv, e.args)
				}
			case e.method == "Process":
				if k == nil || k.proc == nil || unwrap(e.recv) != k.proc || k.ip == nil || k.op == nil || unwrap(e.args[0]) != k.ip || unwrap(e.args[1]) != k.op {
					bad("wires the connection", "Process of %v with %v", e.recv, e.args)
					continue
				}
				good("wires the connection")
				if k.procs > 0 && !k.goOn {
					bad("processes until the end", "Process again although the last one may have reported the end")
				}
				if len(k.closed) > 0 {
					bad("closes only at the end", "Process after Close")
				} else {
					good("closes only at the end")
				}
				k.procs++
				okv, es := s.st.facts.eval(e.res[0]), errState(s.st, e.res[1])
				k.goOn = okv > 0 && es < 0
				k.done = okv < 0 || es > 0
			case e.name == "goend" && e.method == "panic" && k != nil:
				k.broke = true
			case e.method == "Close" && k != nil:
				k.closed[unwrap(e.recv)] = true
			}
		}
		if s.kind == XPanic {
			panics++
		}
		if k != nil && s.kind == XPanic {
			k.broke = true
		}
		finish()
		if s.kind == XPanic {
			if !strings.Contains(s.why, "panic inside") {
				bad("does not panic", "panic")
			}
			continue
		}
		es := errState(s.st, s.rets[0])
		switch {
		case !listened:
			bad("listens first", "returns without Listen")
		case errState(s.st, listenErr) >= 0:
			c.ob(rule, key+" reports the Listen error", es > 0 && mentions(s.rets[0], listenErr), "%s", c.descOutcome(s))
		case acceptErr != nil:
			c.ob(rule, key+" reports Accept errors", es > 0 && mentions(s.rets[0], acceptErr) || stopSeen && es < 0, "%s", c.descOutcome(s))
		default:
			c.ob(rule, key+" returns only when stopped", stopSeen && es < 0, "%s", c.descOutcome(s))
		}
	}
	c.ob(rule, key+" paths", clients > 3 && closes > 3 && stops > 1, "%d clients, %d connections ended, %d stops seen, %d panics", clients, closes, stops, panics)
	c.extra["serve_paths_"+name] = len(outs)
}
