package main

// C17: factories.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = &check{run: runC17, min: 30,
		rule: "on every path: the protocol a factory makes is bound to exactly the transport it is given, each time, and is the one the constructor makes from the factory's settings; the default transport factory returns its argument, the framed one frames what its inner factory makes of the argument; every other transport factory makes a new transport from the settings of a transport of its own kind if it is given one, otherwise from its own; a processor factory returns its processor",
		expl: "Abstract interpretation of every type of the package that implements a factory interface, from each of its constructors with symbolic settings, compared field by field with the value the corresponding constructor builds.",
		asm:  []string{"factories are given non-nil settings"},
	}
}

// sameShape: the two values are the same once objects of the same fields count as equal.
func (in *Interp) sameShape(st *State, a, b *Val, seen map[[2]*Val]bool) string {
	a, b = st.facts.simp(a), st.facts.simp(b)
	for a.op == OIface {
		a = a.args[0]
	}
	for b.op == OIface {
		b = b.args[0]
	}
	if a == b || sameVal(st.facts, a, b) {
		return ""
	}
	if !types.Identical(a.typ, b.typ) {
		return fmt.Sprintf("%v is a %s, %v a %s", a, typeName(a.typ), b, typeName(b.typ))
	}
	k := [2]*Val{a, b}
	if seen[k] {
		return ""
	}
	seen[k] = true
	if isSlice(a.typ) {
		x, y := st.facts.simp(in.content(st, a)), st.facts.simp(in.content(st, b))
		if x == y || sameContent(st.facts, x, y) {
			return ""
		}
		return fmt.Sprintf("content %v against %v", x, y)
	}
	if a.op != OObj || b.op != OObj {
		return fmt.Sprintf("%v against %v", a, b)
	}
	if u, ok := st.heap[underKey(a)]; ok {
		v, ok := st.heap[underKey(b)]
		if !ok {
			return fmt.Sprintf("%v against %v", a, b)
		}
		return in.sameShape(st, u, v, seen)
	}
	if named(deref(a.typ)) == "http.Response" {
		return "" // one request each
	}
	if named(deref(a.typ)) == "bytes.Buffer" {
		x, y := st.facts.simp(in.bufContent(st, a)), st.facts.simp(in.bufContent(st, b))
		if x == y || sameContent(st.facts, x, y) {
			return ""
		}
		return fmt.Sprintf("buffer %v against %v", x, y)
	}
	return in.sameFields(st, a, b, seen)
}

func (in *Interp) sameFields(st *State, a, b *Val, seen map[[2]*Val]bool) string {
	s, ok := deref(a.typ).Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprintf("%v against %v", a, b)
	}
	for i := 0; i < s.NumFields(); i++ {
		fa, fb := fieldAddr(a, i), fieldAddr(b, i)
		if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			continue
		}
		if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
			if why := in.sameFields(st, fa, fb, seen); why != "" {
				return s.Field(i).Name() + ": " + why
			}
			continue
		}
		if why := in.sameShape(st, in.load(st, fa), in.load(st, fb), seen); why != "" {
			return s.Field(i).Name() + ": " + why
		}
	}
	return ""
}

func (c *Ctx) iface(name string) *types.Interface {
	n, _ := c.prog.Type(name).(*types.Named)
	if n == nil {
		c.need("interface "+name, false)
		return nil
	}
	it, _ := n.Underlying().(*types.Interface)
	return it
}

// returning: the package's constructors whose result is t or an interface that a value of t is returned as.
func (c *Ctx) returning(l *lab, t types.Type, it string) []*ssa.Function {
	r := c.prog.ctorsOf(t)
	if n := c.prog.Type(it); n != nil {
		for _, f := range c.prog.ctorsOf(n) {
			st, args := l.anyArgs(f)
			outs := l.in.Call(f, args, st)
			l.in.err = nil
			for _, o := range outs {
				if o.kind == XReturn && types.Identical(unwrap(o.rets[0]).typ, t) {
					r = append(r, f)
					break
				}
			}
		}
	}
	return r
}

// anyArgs: one non-nil symbolic value per parameter.
func (l *lab) anyArgs(f *ssa.Function) (*State, []*Val) {
	st := l.in.start()
	var args []*Val
	for _, p := range f.Params {
		a := atom(p.Type(), p.Name())
		if isIface(p.Type()) {
			st.facts.isnil[a] = false
		}
		if isInt(p.Type()) {
			st.facts.refine(a, Range{big1, big28})
		}
		args = append(args, a)
	}
	return st, args
}

func runC17(c *Ctx) {
	rule := "factory"
	nets := func(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
		if ci.iface && ci.fn != nil && ci.fn.Name() == "GetTransport" {
			if r := unwrap(ci.recv); r.op == OAtom {
				rt := ci.sig.Results().At(0).Type()
				v := mk(OCall, rt, "made", unwrap(ci.args[0]))
				st.facts.isnil[v] = false
				st.add(&Event{kind: EvCall, name: "GetTransport", method: "GetTransport", recv: r, args: ci.args, res: []*Val{v}, pos: ci.pos, in: ci.in})
				return []modelOut{{st: st, res: []*Val{v}}}, true
			}
		}
		if o, ok := streamCtors(in, st, ci); ok {
			return o, ok
		}
		return httpModel(in, st, ci)
	}
	l := c.newLab(rule, Config{Unroll: 3, Model: nets})

	// protocols
	if it := c.iface("TProtocolFactory"); it != nil {
		n := 0
		for _, t := range c.prog.implementors(it) {
			cs := c.returning(l, t, "TProtocolFactory")
			c.ob(rule, typeName(t)+" has a constructor", len(cs) > 0, "none")
			for _, f := range cs {
				n++
				c.protoFactory(l, f)
			}
		}
		c.ob(rule, "protocol factories", n >= 4, "%d constructors", n)
	}
	// transports
	if it := c.iface("TTransportFactory"); it != nil {
		n := 0
		for _, t := range c.prog.implementors(it) {
			cs := c.returning(l, t, "TTransportFactory")
			c.ob(rule, typeName(t)+" has a constructor", len(cs) > 0, "none")
			for _, f := range cs {
				n++
				c.transFactory(l, f)
			}
		}
		c.ob(rule, "transport factories", n >= 6, "%d constructors", n)
	}
	// processors
	for _, d := range [][2]string{{"TProcessorFactory", "GetProcessor"}, {"TProcessorFunctionFactory", "GetProcessorFunction"}} {
		it := c.iface(d[0])
		if it == nil {
			continue
		}
		n := 0
		for _, t := range c.prog.implementors(it) {
			for _, f := range c.returning(l, t, d[0]) {
				n++
				st, args := l.anyArgs(f)
				o, ok := l.one(f.Name(), l.run(f.Name(), f, st, args...))
				if !ok || len(args) != 1 {
					continue
				}
				tr := atom(c.prog.Type("TTransport"), "trans")
				if g, ok := l.one(f.Name()+" "+d[1], l.meth(o.st, o.rets[0], d[1], tr)); ok {
					c.ob(rule, f.Name()+" returns its processor", unwrap(g.rets[0]) == args[0], "%v for %v", g.rets[0], args[0])
				}
			}
		}
		c.ob(rule, d[0]+" implementations", n >= 1, "%d", n)
	}
}

// streamCtors: bufio objects.
func streamCtors(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	if len(ci.name) > 9 && ci.name[:9] == "bufio.New" {
		return streamModel(in, st, ci)
	}
	return nil, false
}

func (c *Ctx) protoFactory(l *lab, f *ssa.Function) {
	nm := f.Name()
	st, args := l.anyArgs(f)
	o, ok := l.one(nm, l.run(nm, f, st, args...))
	if !ok {
		return
	}
	tt := c.prog.Type("TTransport")
	cur := o.st
	for i, t := range []*Val{atom(tt, "first"), atom(tt, "second")} {
		cur.facts.isnil[t] = false
		key := fmt.Sprintf("%s GetProtocol %d", nm, i+1)
		g, ok := l.one(key, l.meth(cur, o.rets[0], "GetProtocol", t))
		if !ok {
			return
		}
		cur = g.st
		p := unwrap(g.rets[0])
		tr, ok := l.one(key+" Transport", l.meth(cur, p, "Transport"))
		if !ok {
			return
		}
		c.ob(l.rule, key+" uses the transport given", unwrap(tr.rets[0]) == t, "bound to %v instead of %v", tr.rets[0], t)
		// the constructor with the same settings
		var twin *ssa.Function
		var targs []*Val
		for _, k := range c.prog.ctorsOf(p.typ) {
			if len(k.Params) == 0 || !types.Identical(k.Params[0].Type(), tt) {
				continue
			}
			if len(k.Params) == 1+len(args) {
				ok := true
				for j, a := range args {
					ok = ok && types.Identical(k.Params[j+1].Type(), a.typ)
				}
				if ok {
					twin, targs = k, append([]*Val{t}, args...)
				}
			}
		}
		if !c.ob(l.rule, key+" has a constructor to compare with", twin != nil, "no constructor of %s with the factory's parameters", typeName(p.typ)) {
			return
		}
		d, ok := l.one(key+" "+twin.Name(), l.run(twin.Name(), twin, cur, targs...))
		if !ok {
			return
		}
		why := l.in.sameShape(d.st, p, d.rets[0], map[[2]*Val]bool{})
		c.ob(l.rule, key+" makes what "+twin.Name()+" makes", why == "", "%s", why)
	}
}

func (c *Ctx) transFactory(l *lab, f *ssa.Function) {
	nm := f.Name()
	st, args := l.anyArgs(f)
	o, ok := l.one(nm, l.run(nm, f, st, args...))
	if !ok {
		return
	}
	tt := c.prog.Type("TTransport")
	t := atom(tt, "trans")
	o.st.facts.isnil[t] = false
	get := func(st *State, key string, t *Val) []Outcome {
		st = st.clone()
		st.trace = nil
		return l.meth(st, o.rets[0], "GetTransport", t)
	}
	outs := get(o.st, nm, t)
	c.ob(l.rule, nm+" GetTransport", len(outs) > 0, "no outcome")
	for _, g := range outs {
		key := nm + " GetTransport"
		if !c.ob(l.rule, key+" returns", g.kind == XReturn, "%s", c.descOutcome(g)) {
			continue
		}
		r := unwrap(g.st.facts.simp(g.rets[0]))
		if r == t {
			// only the default factory returns its argument
			c.ob(l.rule, key+" makes a transport", len(args) == 0, "returns its argument: %s", c.descOutcome(g))
			continue
		}
		if isn, known := g.st.facts.nilness(g.rets[0]); r.isNil() || known && isn { // could not be made
			c.ob(l.rule, key+" makes a transport", anyFailure(g.st), "returns nil: %s", c.descOutcome(g))
			continue
		}
		if !c.ob(l.rule, key+" makes a transport", r.op == OObj, "returns %v: %s", r, c.descOutcome(g)) {
			continue
		}
		// a framed or otherwise wrapped transport
		var inner *Event
		for _, e := range g.st.trace.list() {
			if e.method == "GetTransport" {
				inner = e
			}
		}
		var cand [][]*Val
		switch {
		case len(args) == 1 && isIface(args[0].typ) && typeName(args[0].typ) == typeName(c.prog.Type("TTransportFactory")):
			ok := inner != nil && inner.recv == args[0] && unwrap(inner.args[0]) == t
			if !c.ob(l.rule, key+" asks the inner factory", ok, "%s", c.descOutcome(g)) {
				continue
			}
			cand = append(cand, []*Val{inner.res[0]})
		default:
			// the settings of a transport of the same kind, or the factory's
			if g.st.facts.dyn[t] != nil && types.Identical(g.st.facts.dyn[t], r.typ) {
				cand = append(cand, l.settings(g.st, t, r))
			}
		}
		why := "x"
		if len(cand) > 0 {
			why = l.matches(g.st, r, cand, "New")
			if why == "" && inner == nil {
				why = l.modes(g.st, mk(OAssert, r.typ, "", t), r)
			}
		}
		if why != "" && inner == nil && (len(cand) == 0 || lacksSetting(g.st, cand[0])) { // the factory's own settings
			why = l.matches(g.st, r, [][]*Val{args}, strings.TrimSuffix(strings.TrimSuffix(nm, "Factory"), "Transport"))
			if why == "" {
				why = l.unused(g.st, r, args)
			}
			for _, a := range args {
				if b := onlyFlag(r.typ); isBool(a.typ) && why == "" && b >= 0 {
					if v := l.in.load(g.st, fieldAddr(r, b)); !sameVal(g.st.facts, v, a) {
						why = fmt.Sprintf("%v does not decide the flag, %v", a, v)
					}
				}
			}
		}
		c.ob(l.rule, key+" makes a transport with the settings", why == "", "%s: %s", why, c.descOutcome(g))
	}
}

// lacksSetting: the transport given has no usable settings of its own on this path.
func lacksSetting(st *State, vs []*Val) bool {
	none, some := false, false
	for _, v := range vs {
		switch v.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if isn, known := st.facts.nilness(v); known {
				none, some = none || isn, some || !isn
			}
		default:
			if isInt(v.typ) && st.facts.eval(mkLtInt(v, mkInt(1))) > 0 {
				none = true
			}
		}
	}
	return none && !some
}

func anyFailure(st *State) bool {
	for _, e := range st.trace.list() {
		for _, r := range e.res {
			if types.Identical(r.typ, tError) && errState(st, r) > 0 {
				return true
			}
		}
	}
	for k := range st.fresh {
		if k == "parse-error" {
			return true
		}
	}
	return false
}

// settings lists the fields of the given transport of the kind of r.
func (l *lab) settings(st *State, t, r *Val) []*Val {
	o := mk(OAssert, r.typ, "", t)
	s, ok := deref(r.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var vs []*Val
	for i := 0; i < s.NumFields(); i++ {
		v := l.in.load(st, fieldAddr(o, i))
		vs = append(vs, v)
		if types.NewMethodSet(v.typ).Lookup(nil, "String") != nil {
			vs = append(vs, mk(OCall, tString, ".String", v))
		}
	}
	return vs
}

// onlyFlag finds the one exported boolean field.
func onlyFlag(t types.Type) int {
	s, ok := deref(t).Underlying().(*types.Struct)
	r := -1
	for i := 0; ok && i < s.NumFields(); i++ {
		if f := s.Field(i); isBool(f.Type()) && f.Exported() {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// modes: what is known to be there, or not, in the transport given is so in the new one.
func (l *lab) modes(st *State, o, r *Val) string {
	s, ok := deref(r.typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	flag := onlyFlag(r.typ)
	for i := 0; i < s.NumFields(); i++ {
		a, b := l.in.load(st, fieldAddr(o, i)), l.in.load(st, fieldAddr(r, i))
		if i == flag && !sameVal(st.facts, a, b) {
			return fmt.Sprintf("%s is %v, of the transport given %v", s.Field(i).Name(), b, a)
		}
		if _, ok := a.typ.Underlying().(*types.Pointer); !ok && !isIface(a.typ) {
			continue
		}
		x, k1 := st.facts.nilness(a)
		y, k2 := st.facts.nilness(b)
		if k1 && (b.isNil() || k2) && x != (b.isNil() || y) {
			return fmt.Sprintf("%s is %v, of the transport given %v", s.Field(i).Name(), b, a)
		}
	}
	return ""
}

// fuller: another constructor takes all of the values and one more that is there.
func fuller(st *State, args []*Val, k *ssa.Function, ctors []*ssa.Function, vals []*Val, prefix string) string {
	set := map[*Val]bool{}
	for _, a := range args {
		set[unwrap(a)] = true
		if isBool(a.typ) {
			return ""
		}
	}
	for _, v := range vals {
		if isBool(v.typ) && st.facts.eval(v) > 0 {
			return "" // one stream serves both ways
		}
	}
	for _, k2 := range ctors {
		if k2 == k || !strings.HasPrefix(k2.Name(), prefix) || len(k2.Params) <= len(args) || !sameResult(k, k2) {
			continue
		}
	next:
		for _, more := range choices(st, k2.Params, vals) {
			m := map[*Val]bool{}
			for _, a := range more {
				m[unwrap(a)] = true
				if !set[unwrap(a)] {
					if isn, known := st.facts.nilness(a); !isInt(a.typ) && (!known || isn) {
						continue next
					}
				}
			}
			for a := range set {
				if !m[a] {
					continue next
				}
			}
			if len(m) == len(more) && len(m) > len(set) {
				return k2.Name() + " takes more of the settings"
			}
		}
	}
	return ""
}

func sameResult(a, b *ssa.Function) bool {
	return types.Identical(a.Signature.Results().At(0).Type(), b.Signature.Results().At(0).Type())
}

// matches: r is what some constructor of its type makes from some of the values offered.
func (l *lab) matches(st *State, r *Val, cand [][]*Val, prefix string) string {
	why := "no constructor takes these settings"
	ctors := l.c.prog.ctorsOf(r.typ)
	ctors = append(ctors, l.c.prog.ctorsOf(l.c.prog.Type("TTransport"))...)
	for _, vals := range cand {
		for _, k := range ctors {
			if !strings.HasPrefix(k.Name(), prefix) {
				continue
			}
			for _, args := range choices(st, k.Params, vals) {
				if len(args) != len(k.Params) {
					continue
				}
				for _, d := range l.in.Call(k, append([]*Val(nil), args...), st.clone()) {
					if d.kind != XReturn || len(d.rets) == 0 {
						continue
					}
					w := l.in.sameShape(d.st, r, d.rets[0], map[[2]*Val]bool{})
					if w == "" {
						if w := fuller(st, args, k, ctors, vals, prefix); w != "" {
							why = w
							continue
						}
						return ""
					}
					why = k.Name() + " differs in " + w
				}
				l.in.err = nil
			}
		}
	}
	return why
}

// choices: arguments for the parameters taken from the values by type.
func choices(st *State, ps []*ssa.Parameter, vals []*Val) [][]*Val {
	r := [][]*Val{nil}
	for _, p := range ps {
		var n [][]*Val
		for _, pre := range r {
			for _, v := range vals {
				if types.Identical(v.typ, p.Type()) {
					n = append(n, append(append([]*Val(nil), pre...), v))
				} else if isIface(p.Type()) && isIface(v.typ) && st.facts.truth[implKey(v, p.Type())] {
					n = append(n, append(append([]*Val(nil), pre...), retypeIface(v, p.Type())))
				}
			}
		}
		r = n
	}
	return r
}

// unused: a stream or address the factory was given does not take part.
func (l *lab) unused(st *State, r *Val, args []*Val) string {
	for _, a := range args {
		if isBool(a.typ) && st.facts.eval(a) > 0 {
			return "" // one stream serves both ways
		}
	}
	for _, a := range args {
		if isn, known := st.facts.nilness(a); !isIface(a.typ) || !known || isn {
			continue
		}
		if !l.refers(st, r, a, map[*Val]bool{}) {
			return a.aux + " is not used"
		}
	}
	return ""
}

// refers: v is reachable from the object.
func (l *lab) refers(st *State, o, v *Val, seen map[*Val]bool) bool {
	o = unwrap(o)
	if seen[o] {
		return false
	}
	seen[o] = true
	if mentions(o, v) {
		return true
	}
	for k, x := range st.heap {
		if rootObj(k) == o || k == underKey(o) {
			if mentions(x, v) || l.refers(st, x, v, seen) {
				return true
			}
		}
	}
	return false
}
