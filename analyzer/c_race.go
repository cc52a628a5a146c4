package main

// C13: what the documentation allows to be called from other goroutines.
// Lockset analysis over the abstract paths of the methods involved.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = &check{run: runC13, min: 20,
		rule: "every field that Stop and Serve, or Interrupt and Listen/Accept/Close, both use and one of them writes is only accessed atomically or under a common lock; locks are released on every path, never taken twice, and none that Interrupt needs is held while Accept waits; Interrupt closes the listener Accept waits on; a listener is only used where it is known to be there; after Interrupt Accept reports an error without waiting, after Listen it waits on an open listener",
		expl: "Lockset analysis over the abstract paths of Serve, Stop, IsStopped, Listen, Accept, Close and Interrupt of every type implementing TServer or TServerTransport, with every field unknown on entry and changed arbitrarily at every lock operation.",
		asm:  []string{"net.Listener.Close unblocks its Accept", "the methods of the interfaces are the entry points; fields are reached through the receiver only"},
	}
}

type access struct {
	field  string
	write  bool
	atomic bool
	locks  []string
	pos    string
	in     string
}

type raceRun struct {
	l      *lab
	recv   *Val
	acc    []access
	shared map[string]bool // fields any method writes
	c      *Ctx
	key    string
	rule   string
	waits  [][]string // locks held at each blocking Accept
	takes  map[string]bool
	closed map[string]bool // field whose value was closed
	waited map[string]bool // field whose value Accept waited on
}

func (r *raceRun) fieldOf(a *Val) string {
	for a != nil && (a.op == OFieldAddr || a.op == OIndexAddr) {
		if a.op == OFieldAddr && a.args[0] == r.recv {
			return a.aux
		}
		a = a.args[0]
	}
	return ""
}

func heldLocks(st *State) []string {
	var s []string
	for k, n := range st.ext {
		if strings.HasPrefix(k, "lock:") && n > 0 {
			s = append(s, k[5:])
		}
	}
	sort.Strings(s)
	return s
}

func (r *raceRun) note(in *Interp, st *State, a *Val, write, atomic bool, pos string) {
	f := r.fieldOf(a)
	if f == "" {
		return
	}
	fn := ""
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].Name()
	}
	r.acc = append(r.acc, access{f, write, atomic, heldLocks(st), pos, fn})
	if write {
		r.shared[f] = true
	}
}

func (c *Ctx) newRace(rule string, t types.Type, name string) *raceRun {
	r := &raceRun{c: c, rule: rule, shared: map[string]bool{}}
	r.recv = atom(t, "self")
	cfg := Config{RunGo: true, Unroll: 2, PossiblePanics: false}
	cfg.OnDeref = func(in *Interp, st *State, i ssa.Instruction, p *Val, what string) {
		if what == "load" {
			r.note(in, st, p, false, false, c.pos(i.Pos()))
		}
	}
	cfg.OnStore = func(in *Interp, st *State, i ssa.Instruction, addr, val *Val) {
		r.note(in, st, addr, true, false, c.pos(i.Pos()))
	}
	cfg.Model = func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
		k, a := syncOp(ci)
		switch k {
		case "load":
			r.note(in, st, a, false, true, c.pos(ci.pos))
		case "store", "rmw":
			r.note(in, st, a, true, true, c.pos(ci.pos))
		case "lock":
			if st.ext["lock:"+a.String()] > 0 {
				c.ob(rule, r.key+" locks once", false, "%v is locked again while held at %s", a, c.pos(ci.pos))
			}
			if r.takes != nil {
				r.takes[a.String()] = true
			}
			// others may have changed what they share
			for h := range st.heap {
				if f := r.fieldOf(h); f != "" && r.shared[f] {
					delete(st.heap, h)
				}
			}
			if s, ok := r.recvStruct(); ok {
				for i := 0; i < s.NumFields(); i++ {
					if r.shared[s.Field(i).Name()] {
						in.store(st, fieldAddr(r.recv, i), in.unknown(st, s.Field(i).Type(), "self."+s.Field(i).Name()))
					}
				}
			}
		case "unlock":
			if st.ext["lock:"+a.String()] <= 0 {
				c.ob(rule, r.key+" unlocks what it locked", false, "%v is unlocked without being held at %s", a, c.pos(ci.pos))
			}
		}
		if o, ok := in.syncModel(st, ci); ok {
			return o, true
		}
		if ci.iface && ci.fn != nil && strings.Contains(ci.name, "net.") {
			switch ci.fn.Name() {
			case "Accept", "Close":
				n, known := st.facts.nilness(ci.recv)
				c.ob(rule, r.key+" uses only what is there", known && !n, "%s of a possibly missing %v at %s", ci.fn.Name(), ci.recv, c.pos(ci.pos))
				if ci.fn.Name() == "Accept" {
					r.waits = append(r.waits, heldLocks(st))
				}
			}
		}
		if ci.iface && ci.fn != nil && ci.fn.Name() == "Process" { // only the accesses between rounds matter
			rs := ci.sig.Results()
			return []modelOut{{st: st, res: []*Val{atom(rs.At(0).Type(), st.label("more")), mkNil(rs.At(1).Type())}}}, true
		}
		if ci.iface && ci.fn != nil && ci.fn.Name() == "Accept" && strings.Contains(ci.name, "TServerTransport") {
			r.waits = append(r.waits, heldLocks(st))
		}
		return nil, false
	}
	r.l = c.newLab(rule, cfg)
	return r
}

func (r *raceRun) recvStruct() (*types.Struct, bool) {
	s, ok := deref(r.recv.typ).Underlying().(*types.Struct)
	return s, ok
}

// method analyses one method and returns its accesses.
func (r *raceRun) method(name, m string) []access {
	r.acc = nil
	r.key = name + "." + m
	f := r.c.prog.MethodByName(r.recv.typ, m)
	if f == nil {
		return nil
	}
	st := r.l.in.start()
	st.facts.isnil[r.recv] = false
	var args []*Val
	for i, p := range f.Params {
		if i == 0 {
			args = append(args, r.recv)
		} else {
			args = append(args, atom(p.Type(), p.Name()))
		}
	}
	outs := r.l.run(r.key, f, st, args...)
	for _, o := range outs {
		if o.kind == XCut {
			continue
		}
		h := heldLocks(o.st)
		r.c.ob(r.rule, r.key+" releases its locks", len(h) == 0, "%v stays locked: %s", h, r.c.descOutcome(o))
	}
	return r.acc
}

func runC13(c *Ctx) {
	rule := "concurrency"
	pairs := []struct {
		iface  string
		a, b   []string
		blocks string
	}{
		{"TServer", []string{"Stop", "IsStopped"}, []string{"Serve", "Stop"}, "Serve"},
		{"TServerTransport", []string{"Interrupt"}, []string{"Listen", "Accept", "Close", "Interrupt"}, "Accept"},
	}
	compared := 0
	for _, p := range pairs {
		n, _ := c.prog.Type(p.iface).(*types.Named)
		if !c.need("interface "+p.iface, n != nil) {
			return
		}
		ts := c.prog.implementors(n.Underlying().(*types.Interface))
		c.ob(rule, p.iface+" implementations", len(ts) >= 2, "%d types", len(ts))
		for _, t := range ts {
			name := types.TypeString(deref(t), qual)
			r := c.newRace(rule, t, name)
			all := map[string]bool{}
			for _, m := range append(append([]string(nil), p.a...), p.b...) {
				all[m] = true
			}
			for m := range all { // which fields are written at all
				saved := c.obs
				savedOrder := c.order
				c.obs = map[string]*obligation{}
				r.method(name, m)
				c.obs, c.order = saved, savedOrder
			}
			acc := map[string][]access{}
			takes := map[string]map[string]bool{}
			waits := map[string][][]string{}
			var ms []string
			for m := range all {
				ms = append(ms, m)
			}
			sort.Strings(ms)
			for _, m := range ms {
				r.takes, r.waits = map[string]bool{}, nil
				acc[m] = r.method(name, m)
				takes[m], waits[m] = r.takes, r.waits
			}
			for _, a := range p.a {
				for _, b := range p.b {
					for _, x := range acc[a] {
						for _, y := range acc[b] {
							if x.field != y.field || !x.write && !y.write {
								continue
							}
							compared++
							c.ob(rule, fmt.Sprintf("%s %s and %s share %s", name, a, b, x.field), x.atomic && y.atomic || common(x.locks, y.locks),
								"%s at %s (locks %v) and %s at %s (locks %v) may run at the same time", acc2(x), x.pos, x.locks, acc2(y), y.pos, y.locks)
						}
					}
				}
			}
			for _, h := range waits[p.blocks] {
				ok := true
				for _, a := range p.a {
					for _, x := range h {
						if takes[a][x] {
							ok = false
						}
					}
				}
				c.ob(rule, name+" waits without a lock "+p.a[0]+" needs", ok, "%v held while waiting", h)
			}
			c.ob(rule, name+" waits in "+p.blocks, len(waits[p.blocks]) > 0, "no waiting call found")
		}
	}
	c.ob(rule, "conflicting accesses compared", compared >= 8, "%d pairs", compared)
	c.interrupts(rule)
}

func acc2(a access) string {
	s := "read"
	if a.write {
		s = "write"
	}
	if a.atomic {
		s = "atomic " + s
	}
	return s + " in " + a.in
}

func common(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y {
				return true
			}
		}
	}
	return false
}

// interrupts decides the sequences of Listen, Interrupt and Accept.
func (c *Ctx) interrupts(rule string) {
	n, _ := c.prog.Type("TServerTransport").(*types.Named)
	if n == nil {
		return
	}
	for _, t := range c.prog.implementors(n.Underlying().(*types.Interface)) {
		name := types.TypeString(deref(t), qual)
		l := c.newLab(rule, Config{Unroll: 2, PossiblePanics: true, Model: func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
			if o, ok := in.syncModel(st, ci); ok {
				return o, true
			}
			if ci.iface && ci.fn != nil && ci.fn.Name() == "Close" && strings.Contains(ci.name, "net.") {
				// a listener that can be closed
				st.add(&Event{kind: EvCall, name: ci.name, method: "Close", recv: ci.recv, pos: ci.pos, in: ci.in})
				if st.ext["closed:"+unwrap(ci.recv).String()] > 0 {
					return []modelOut{{st: st, res: []*Val{newErr(st, ci.sig.Results().At(0).Type(), "closed-listener")}}}, true
				}
				st.ext["closed:"+unwrap(ci.recv).String()]++
				return []modelOut{{st: st, res: []*Val{mkNil(ci.sig.Results().At(0).Type())}}}, true
			}
			if ci.iface && ci.fn != nil && ci.fn.Name() == "Accept" && strings.Contains(ci.name, "net.") && st.ext["closed:"+unwrap(ci.recv).String()] > 0 {
				rs := ci.sig.Results()
				e := newErr(st, rs.At(1).Type(), "closed-listener")
				st.add(&Event{kind: EvCall, name: ci.name + " on a closed listener", method: "Accept-closed", recv: ci.recv, pos: ci.pos, in: ci.in})
				return []modelOut{{st: st, res: []*Val{mkNil(rs.At(0).Type()), e}}}, true
			}
			if ci.sfn != nil && ci.sfn.Name() == "Listen" && ci.sfn.Pkg != nil && ci.sfn.Pkg.Pkg.Path() == "net" {
				l := newErr(st, ci.sig.Results().At(0).Type(), "listener")
				st.add(&Event{kind: EvCall, name: "net.Listen", method: "net.Listen", res: []*Val{l}, pos: ci.pos, in: ci.in})
				return []modelOut{{st: st, res: []*Val{l, mkNil(tError)}}}, true
			}
			return nil, false
		}})
		recv := atom(t, "self")
		st := l.in.start()
		st.facts.isnil[recv] = false
		type step2 struct {
			m   string
			fin func(o Outcome, key string)
		}
		waited := func(o Outcome) *Event {
			for _, e := range o.st.trace.list() {
				if e.method == "Accept" && e.kind == EvCall {
					return e
				}
			}
			return nil
		}
		run := func(sts []*State, m string, judge func(o Outcome) bool) []*State {
			var r []*State
			for _, s := range sts {
				s = s.clone()
				s.trace = nil
				for _, o := range l.meth(s, recv, m) {
					if o.kind == XCut {
						continue
					}
					if o.kind != XReturn {
						c.ob(rule, name+"."+m+" does not panic", false, "%s", c.descOutcome(o))
						continue
					}
					if judge(o) {
						r = append(r, o.st)
					}
				}
			}
			return r
		}
		any := func(o Outcome) bool { return true }
		// Listen makes it open, also when it is open already, and Accept waits on that listener
		listened := run([]*State{st}, "Listen", func(o Outcome) bool {
			return c.ob(rule, name+".Listen succeeds", errState(o.st, o.rets[0]) < 0, "Listen reports an error although the address can be listened on: %s", c.descOutcome(o))
		})
		again := run(listened, "Listen", func(o Outcome) bool {
			ok := errState(o.st, o.rets[0]) < 0
			for _, e := range o.st.trace.list() {
				ok = ok && e.method != "net.Listen"
			}
			return c.ob(rule, name+".Listen again keeps the listener", ok, "%s", c.descOutcome(o))
		})
		acc := func(key string, want bool, from []*State) {
			c.ob(rule, name+" "+key+" reached", len(from) > 0, "no path")
			run(from, "Accept", func(o Outcome) bool {
				w := waited(o)
				if want {
					c.ob(rule, name+" "+key, w != nil, "Accept does not wait for a client: %s", c.descOutcome(o))
					if w != nil {
						if len(w.res) == 2 && errState(o.st, w.res[1]) < 0 {
							r := unwrap(o.rets[0])
							isn, known := o.st.facts.nilness(o.rets[0])
							c.ob(rule, name+".Accept returns a transport on the client's connection", !(known && isn) && errState(o.st, o.rets[1]) < 0 && (holds(o.st, r, w.res[0])), "%v for %v: %s", o.rets[0], w.res[0], c.descOutcome(o))
						} else if errState(o.st, w.res[1]) > 0 {
							c.ob(rule, name+".Accept reports errors", errState(o.st, o.rets[1]) > 0, "%s", c.descOutcome(o))
						}
					}
				} else {
					c.ob(rule, name+" "+key, w == nil && errState(o.st, o.rets[1]) > 0, "Accept does not report an error at once: %s", c.descOutcome(o))
				}
				return false
			})
		}
		acc("Accept after Listen waits", true, again)
		// the listener is the one Interrupt closes
		intr := run(listened, "Interrupt", func(o Outcome) bool {
			n := 0
			for _, e := range o.st.trace.list() {
				if e.method == "Close" {
					n++
				}
			}
			return c.ob(rule, name+".Interrupt closes the listener", n >= 1 && errState(o.st, o.rets[0]) < 0, "%s", c.descOutcome(o))
		})
		acc("Accept after Interrupt does not wait", false, intr)
		run(intr, "Interrupt", func(o Outcome) bool {
			return c.ob(rule, name+".Interrupt twice", errState(o.st, o.rets[0]) < 0, "%s", c.descOutcome(o))
		})
		relisten := run(intr, "Listen", func(o Outcome) bool {
			return c.ob(rule, name+".Listen after Interrupt succeeds", errState(o.st, o.rets[0]) < 0, "%s", c.descOutcome(o))
		})
		acc("Accept after Interrupt and Listen waits", true, relisten)
		closed := run(listened, "Close", any)
		acc("Accept after Close and Listen waits", true, run(closed, "Listen", any))
		run(closed, "Close", func(o Outcome) bool {
			return c.ob(rule, name+".Close twice", errState(o.st, o.rets[0]) < 0, "%s", c.descOutcome(o))
		})
	}
}

// holds: the object refers to the value.
func holds(st *State, o, v *Val) bool {
	if mentions(o, v) {
		return true
	}
	for k, x := range st.heap {
		if rootObj(k) == o && mentions(x, v) {
			return true
		}
	}
	return false
}
