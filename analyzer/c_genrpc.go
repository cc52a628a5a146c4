package main

// Calls through the emitted client and processor.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C34"] = &check{run: runC34, min: 1,
		rule: "a call of the emitted client, served by the emitted processor of a handler over protocols that give back what was written, reaches the handler once with the arguments' values and returns the handler's outcome; every failing protocol call is reported; nobody replies to a oneway call",
		expl: "per type four functions: with a result, with declared exceptions, void, oneway; modes: success, each exception, error of the handler, unknown name, foreign sequence id, a call after a oneway call; faults: each protocol call of the client's and the processor's writing and reading",
		asm:  []string{"the parse tree classes behave as in Apache Thrift's compiler (their stub is in cppstub)", "the call is served when the client flushes", "programs C31 rejects or whose generation is not followed are notes"}}
}

type rpcFn struct {
	name   string // in the IDL
	ret    bool
	throws bool
	oneway bool
	args   []*node
	result *node
}

// results of a driver
const (
	rpcGot = iota
	rpcOut
	rpcCalls
	rpcFailed
	rpcBad
	rpcHit
	rpcLeft
	rpcReplies
	rpcFlushed
	rpcWhich
)

func (c *Ctx) genRPC(g *cprog, t idlType, svc string, faults bool) {
	pn := fmt.Sprintf("prog%d", len(c.prog.Gen))
	title := t.name
	if svc != "Calc" {
		title += " in a service that extends another"
	}
	d := newIDL(pn)
	x := t.make(d)
	failure := d.structure("Failure", true, idlField(1, "why", baseType("string"), 2, nil))
	lost := d.structure("Lost", true, idlField(1, "code", baseType("i32"), 2, nil))
	fns := []*cobj{
		d.function("echo_it", x, false, []*cobj{idlField(1, "arg_one", x, 2, nil)}, nil),
		d.function("throwing", x, false, []*cobj{idlField(1, "a", x, 2, nil), idlField(2, "b", baseType("i32"), 2, nil)}, []*cobj{idlField(1, "failed", failure, 2, nil), idlField(2, "lost", lost, 2, nil)}),
		d.function("nothing", baseType("void"), false, []*cobj{idlField(1, "a", x, 2, nil)}, nil),
		d.function("fire_it", baseType("void"), true, []*cobj{idlField(1, "a", x, 2, nil)}, nil),
	}
	if svc == "Calc" {
		d.service(svc, nil, fns...)
	} else {
		b := d.service("Base", nil, fns[0], fns[3])
		d.service(svc, b, fns[1], fns[2])
	}
	files, e := d.emit(g)
	if e != nil {
		genSkip(c, title, e)
		return
	}
	pkg, _ := splitGo(files)
	imp := &genImporter{c.prog, map[string]*types.Package{}}
	q, _, _, errs := c.prog.checkGo(pn+"x", pkg, imp)
	if len(errs) > 0 {
		c.notes = append(c.notes, "does not compile, see C31: "+title)
		return
	}
	io, _ := q.Scope().Lookup("I" + svc).(*types.TypeName)
	if !c.ob("driver", title, io != nil && isIface(io.Type()), "no interface I%s is emitted", svc) {
		return
	}
	it := io.Type().Underlying().(*types.Interface)
	qual := func(p *types.Package) string {
		if p == q {
			return ""
		}
		return p.Name()
	}

	m := &maker{}
	ret := m.build(x, false)
	why, whyV := m.param(types.Typ[types.String])
	code, codeV := m.param(types.Typ[types.Int32])
	foreign, _ := m.param(types.Typ[types.Int32])
	var list []*rpcFn
	for _, f := range fns {
		r := &rpcFn{name: f.f["name"].(string), oneway: f.f["is_oneway"] == true}
		r.throws = len(f.f["xceptions"].(*cobj).f["members"].(*cvec).v) > 0
		r.ret = f.f["returntype"].(*cobj).f["is_void"] != true
		if r.ret {
			r.result = ret
		}
		list = append(list, r)
	}
	arg := m.build(x, false)
	second, secondV := m.param(types.Typ[types.Int32])
	_ = secondV
	i32 := idlOf(baseType("i32"))
	for _, r := range list {
		r.args = []*node{arg}
		if r.throws {
			r.args = append(r.args, &node{l: i32, expr: second, v: secondV})
		}
	}

	var b strings.Builder
	retT := ""
	methods := map[string]*types.Signature{}
	for i := 0; i < it.NumMethods(); i++ {
		f := it.Method(i)
		methods[f.Name()] = f.Type().(*types.Signature)
	}
	var h strings.Builder
	for _, r := range list {
		sig := methods[pub(r.name)]
		if !c.ob("driver", title, sig != nil, "I%s has no method %s", svc, pub(r.name)) {
			return
		}
		n := 1
		if r.ret {
			n++
		}
		if r.throws {
			n += 2
		}
		if !c.ob("driver", title, sig.Results().Len() == n && sig.Params().Len() == len(r.args), "method %s of I%s is %v", pub(r.name), svc, sig) {
			return
		}
		var ps, rs []string
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, fmt.Sprintf("p%d %s", i, types.TypeString(sig.Params().At(i).Type(), qual)))
		}
		for i := 0; i < n; i++ {
			rs = append(rs, fmt.Sprintf("r%d %s", i, types.TypeString(sig.Results().At(i).Type(), qual)))
		}
		if r.ret {
			retT = types.TypeString(sig.Results().At(0).Type(), qual)
		}
		fmt.Fprintf(&h, "func (h *vHandler) %s(%s) (%s) {\nh.calls++\nh.which = %q\nvar out []interface{}\n", pub(r.name), strings.Join(ps, ", "), strings.Join(rs, ", "), r.name)
		for i, a := range r.args {
			h.WriteString("{ " + a.take(fmt.Sprintf("p%d", i), false, 0) + " }\n")
		}
		h.WriteString("h.got = append(h.got, out...)\n")
		fmt.Fprintf(&h, "if h.mode == 2 { r%d = vErr(\"handler\"); return }\n", n-1)
		if r.throws {
			h.WriteString("if h.mode == 1 { r1 = NewFailure(); r1.Why = h.why; return }\nif h.mode == 3 { r2 = NewLost(); r2.Code = h.code; return }\n")
		}
		if r.ret {
			h.WriteString("r0 = h.ret\n")
		}
		h.WriteString("return\n}\n")

		call := func(lhs string) string {
			s := lhs + " := c." + pub(r.name) + "("
			for i, a := range r.args {
				if i > 0 {
					s += ", "
				}
				s += a.expr
			}
			return s + ")\n"
		}
		var l []string
		for i := 0; i < n-1; i++ {
			l = append(l, fmt.Sprintf("r%d", i))
		}
		l = append(l, "e")
		fmt.Fprintf(&b, "func v%s(mode, f1, f2, f3, f4 int, %s) (got, out []interface{}, calls int, failed, bad, hit bool, left, replies, flushed int, which string) {\n", pub(r.name), strings.Join(m.decl, ", "))
		fmt.Fprintf(&b, "h := &vHandler{mode: mode, why: %s, code: %s}\nh.ret = %s\n", why, code, ret.expr)
		fmt.Fprintf(&b, "co := &vTape{fail: f1}\ncin := &vTape{fail: f4}\nproc := New%sProcessor(h)\nc := New%sClientProtocol(nil, cin, co)\n", svc, svc)
		b.WriteString(`base := 0
co.flush = func() {
	pin := &vTape{ops: co.ops, at: base, fail: f2}
	base = len(co.ops)
	if mode == 4 { pin.ops[0].name = "unheard_of" }
	ci := &vTape{fail: f3}
	ok, err := proc.Process(pin, ci)
	bad = !ok || err != nil
	if f2 >= 0 { hit = pin.fail < 0 }
	if f3 >= 0 { hit = ci.fail < 0 }
	if mode == 5 && len(ci.ops) > 0 && ci.ops[0].v.(int32) != ` + foreign + ` { hit, ci.ops[0].v = true, ` + foreign + ` }
	cin.ops = append(cin.ops, ci.ops...)
	left = len(pin.ops) - pin.at
	replies = len(ci.ops)
	flushed = ci.flushes
}
`)
		if !r.oneway { // a oneway call first
			fmt.Fprintf(&b, "if mode == 6 { c.FireIt(%s) }\n", arg.expr)
		}
		b.WriteString(call(strings.Join(l, ", ")))
		b.WriteString("failed = e != nil\nif f1 >= 0 { hit = co.fail < 0 }\nif f4 >= 0 { hit = cin.fail < 0 }\ngot, calls, which = h.got, h.calls, h.which\nleft += len(cin.ops) - cin.at\n")
		if r.throws {
			b.WriteString("if r1 == nil { out = append(out, nil) } else { out = append(out, r1.Why) }\nif r2 == nil { out = append(out, nil) } else { out = append(out, r2.Code) }\n")
		}
		if r.ret {
			b.WriteString("{ " + ret.take("r0", false, 0) + " }\n")
		}
		b.WriteString("return\n}\n")
	}
	driver := "type vHandler struct {\nmode, calls int\nwhich, why string\ncode int32\ngot []interface{}\nret " + retT + "\n}\n" + h.String() + b.String()
	sp := c.genPkg(pn, title, pkg, driver)
	if sp == nil {
		return
	}
	l := c.collLab("calls")
	st := l.in.start()
	for _, p := range m.params {
		if isSlice(p.typ) { // nil bytes are no result
			st.facts.refine(mkLen(p), Range{big.NewInt(0), maxLen})
			st.facts.assume(mkEq(p, mkNil(p.typ)), false)
		}
	}
	r := &rpcRun{c: c, l: l, st: st, sp: sp, m: m, title: title, why: whyV, code: codeV}
	for _, f := range list {
		r.modes(f)
		if faults {
			r.faults(f)
		}
	}
}

type rpcRun struct {
	c         *Ctx
	l         *lab
	st        *State
	sp        *ssa.Package
	m         *maker
	title     string
	why, code *Val
}

func (r *rpcRun) run(key string, f *rpcFn, mode int64, fault ...int64) []Outcome {
	args := []*Val{mkInt(mode)}
	for i := 0; i < 4; i++ {
		k := int64(-1)
		if i < len(fault) {
			k = fault[i]
		}
		args = append(args, mkInt(k))
	}
	return r.l.run(key, r.sp.Func("v"+pub(f.name)), r.st, append(args, r.m.params...)...)
}

// same tells whether the values of a slice are the leaves given.
func (r *rpcRun) same(st *State, v *Val, want []*Val) string {
	out, ok := r.l.items(st, v)
	if !ok {
		return "of unknown length"
	}
	if len(out) != len(want) {
		return fmt.Sprintf("%d parts instead of %d", len(out), len(want))
	}
	for i := range out {
		if want[i] == nil {
			if st.facts.simp(out[i]).op == OIface {
				return fmt.Sprintf("part %d is there", i)
			}
			continue
		}
		if !r.l.sameLeaf(st, out[i], want[i]) {
			return fmt.Sprintf("part %d is %v instead of %v", i, st.facts.simp(out[i]), want[i])
		}
	}
	return ""
}

func (r *rpcRun) num(st *State, v *Val) int64 {
	n, ok := st.facts.simpConst(v).i64()
	if !ok {
		return -12345
	}
	return n
}

func (r *rpcRun) modes(f *rpcFn) {
	var args, res []*Val
	for _, a := range f.args {
		args = append(args, a.leaves()...)
	}
	if f.throws {
		res = append(res, nil, nil)
	}
	if f.ret {
		res = append(res, f.result.leaves()...)
	}
	one := func(mode int64, what string, check func(o Outcome) string) {
		key := r.title + ", " + f.name + ", " + what
		for _, o := range r.run(key, f, mode) {
			if !r.l.alive(key, o) {
				return
			}
			why := check(o)
			if !r.c.ob("calls", key, why == "", "%s: %s", why, r.c.descOutcome(o)) {
				return
			}
		}
	}
	is := func(o Outcome, i int, want bool) bool {
		v := o.st.facts.eval(o.rets[i])
		return want && v > 0 || !want && v < 0
	}
	ok := func(o Outcome, calls int64, args, res []*Val) string {
		n := func(i int) int64 { return r.num(o.st, o.rets[i]) }
		switch {
		case !is(o, rpcFailed, false):
			return "the client reports an error"
		case !is(o, rpcBad, false):
			return "the processor reports an error"
		case n(rpcCalls) != calls:
			return fmt.Sprintf("the handler is called %d times instead of %d", n(rpcCalls), calls)
		case o.st.facts.eval(mkEq(o.rets[rpcWhich], mkStr(f.name))) <= 0:
			return fmt.Sprintf("the handler's method is %v", o.rets[rpcWhich])
		case n(rpcLeft) != 0:
			return "not all of the call or reply is read"
		case f.oneway && n(rpcReplies) != 0:
			return "there is a reply to a oneway call"
		case !f.oneway && n(rpcFlushed) != 1:
			return fmt.Sprintf("the reply is flushed %d times", n(rpcFlushed))
		}
		if why := r.same(o.st, o.rets[rpcGot], args); why != "" {
			return "the handler gets other arguments: " + why
		}
		if res == nil {
			return ""
		}
		if why := r.same(o.st, o.rets[rpcOut], res); why != "" {
			return "the client gets another result: " + why
		}
		return ""
	}
	one(0, "success", func(o Outcome) string { return ok(o, 1, args, res) })
	if f.throws {
		thrown := func(v ...*Val) func(o Outcome) string {
			return func(o Outcome) string {
				if why := ok(o, 1, args, nil); why != "" {
					return why
				}
				out, known := r.l.items(o.st, o.rets[rpcOut])
				if !known || len(out) < 2 {
					return "no known outcome"
				}
				for i, w := range v {
					there := o.st.facts.simp(out[i]).op == OIface
					if there != (w != nil) || w != nil && !r.l.sameLeaf(o.st, out[i], w) {
						return fmt.Sprintf("declared exception %d is %v instead of %v", i+1, out[i], w)
					}
				}
				return ""
			}
		}
		one(1, "first exception", thrown(r.why, nil))
		one(3, "second exception", thrown(nil, r.code))
	}
	one(2, "error of the handler", func(o Outcome) string {
		switch {
		case !is(o, rpcBad, true):
			return "the processor reports success"
		case f.oneway && r.num(o.st, o.rets[rpcReplies]) != 0:
			return "there is a reply to a oneway call"
		case !f.oneway && !is(o, rpcFailed, true):
			return "the client reports success"
		case r.num(o.st, o.rets[rpcLeft]) != 0:
			return "not all of the call or reply is read"
		case !f.oneway && r.num(o.st, o.rets[rpcFlushed]) != 1:
			return fmt.Sprintf("the reply is flushed %d times", r.num(o.st, o.rets[rpcFlushed]))
		}
		return ""
	})
	if f.oneway {
		return
	}
	one(4, "unknown name", func(o Outcome) string {
		switch {
		case r.num(o.st, o.rets[rpcCalls]) != 0:
			return "the handler is called"
		case !is(o, rpcBad, true):
			return "the processor reports success"
		case !is(o, rpcFailed, true):
			return "the client reports success"
		case r.num(o.st, o.rets[rpcLeft]) != 0:
			return "not all of the call or reply is read"
		case r.num(o.st, o.rets[rpcFlushed]) != 1:
			return fmt.Sprintf("the reply is flushed %d times", r.num(o.st, o.rets[rpcFlushed]))
		}
		return ""
	})
	one(5, "another sequence id", func(o Outcome) string {
		if is(o, rpcHit, true) && !is(o, rpcFailed, true) {
			return "the client takes a reply to another call"
		}
		return ""
	})
	one(6, "after a oneway call", func(o Outcome) string {
		return ok(o, 2, append(append([]*Val{}, args[:len(f.args[0].leaves())]...), args...), res)
	})
}

func (r *rpcRun) faults(f *rpcFn) {
	for at, what := range []string{"writing the call", "reading the call", "writing the reply", "reading the reply"} {
		if f.oneway && at >= 2 {
			break
		}
		key := r.title + ", " + f.name + ", a failure in " + what
		done := false
		for k := int64(0); !done; k++ {
			if k > 80 {
				r.c.undecided("faults", key, "more than 80 calls")
				return
			}
			done = true
			fault := []int64{-1, -1, -1, -1}
			fault[at] = k
			for _, o := range r.run(key, f, 0, fault...) {
				if o.kind != XReturn {
					if !r.c.ob("faults", key, false, "protocol call %d fails: %s", k, r.c.descOutcome(o)) {
						return
					}
				}
				fc := o.st.facts
				if fc.eval(o.rets[rpcHit]) < 0 {
					continue
				}
				done = false
				failed, bad := fc.eval(o.rets[rpcFailed]) > 0, fc.eval(o.rets[rpcBad]) > 0
				why := ""
				switch {
				case (at == 0 || at == 3) && !failed:
					why = "the client reports success"
				case (at == 1 || at == 2) && !bad:
					why = "the processor reports success"
				case at == 1 && r.num(o.st, o.rets[rpcCalls]) != 0:
					why = "the handler is called"
				case at == 1 && f.oneway && r.num(o.st, o.rets[rpcReplies]) != 0:
					why = "there is a reply to a oneway call"
				}
				if !r.c.ob("faults", key, why == "", "%s when protocol call %d fails: %s", why, k, r.c.descOutcome(o)) {
					return
				}
			}
		}
	}
}

func runC34(c *Ctx) {
	g, err := loadGenerator(c.prog.repo, c.verif)
	if err != nil {
		genUnread(c, err)
		return
	}
	c.ob("anchor", "t_go_generator.cc", true, "")
	for _, t := range idlTypes() {
		f := map[string]bool{"i32": true, "string": true, "struct": true, "list of i64": true}[t.name]
		c.genRPC(g, t, "Calc", f)
		if t.name == "i32" {
			c.genRPC(g, t, "Derived", true)
		}
	}
}
