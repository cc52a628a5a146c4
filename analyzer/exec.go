package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) where(p token.Pos) string { return in.prog.Pos(p) }

// instrs executes block b from instruction k.
func (in *Interp) instrs(st *State, fr *Frame, b *ssa.BasicBlock, k int, out *[]Outcome) {
	for ; k < len(b.Instrs); k++ {
		if in.err != nil {
			return
		}
		in.steps++
		if in.steps > in.cfg.MaxSteps || in.forks > in.cfg.MaxForks || in.steps&8191 == 0 && time.Since(started) > 450*time.Second {
			in.fail("analysis budget exceeded in %s", fr.fn)
			return
		}
		switch x := b.Instrs[k].(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract:
			if why := in.simple(st, fr, b.Instrs[k]); why != "" {
				in.panicOut(st, fr, why, b.Instrs[k].Pos(), out)
				return
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ch := in.val(st, fr, x.X)
				t := x.Type()
				if in.cfg.Coll && isQueue(ch) {
					v, ok, why := in.receive(st, ch)
					if why != "" {
						in.panicOut(st, fr, why, x.Pos(), out)
						return
					}
					if x.CommaOk {
						v = mk(OTuple, t, "", v, ok)
					}
					fr.env[x] = v
					continue
				}
				l := "recv@" + in.where(x.Pos())
				v := in.unknown(st, t, l)
				ev := &Event{kind: EvRecv, name: "recv", recv: ch, pos: x.Pos(), in: fr.fn, res: []*Val{v}}
				st.add(ev)
				fr.env[x] = v
				continue
			}
			if why := in.simple(st, fr, x); why != "" {
				in.panicOut(st, fr, why, x.Pos(), out)
				return
			}
		case *ssa.Alloc:
			label := fmt.Sprintf("new:%s@%s", types.TypeString(elemType(x.Type()), qual), in.shortpos(x.Pos(), fr))
			if !x.Heap {
				// re-executed local: same cell reset to zero
				label = fmt.Sprintf("local:%s:%s", fr.id, x.Name())
				o := mk(OObj, x.Type(), label)
				for k := range st.heap {
					if rootObj(k) == o {
						delete(st.heap, k)
					}
				}
				st.def[o] = "zero"
				fr.env[x] = o
				continue
			}
			fr.env[x] = in.newObj(st, x.Type(), label)
		case *ssa.MakeSlice:
			n := st.facts.simpConst(in.val(st, fr, x.Len))
			if n.typ != tInt {
				n = convert(n, tInt)
			}
			cp := st.facts.simpConst(in.val(st, fr, x.Cap))
			if cp.typ != tInt {
				cp = convert(cp, tInt)
			}
			if in.cfg.OnMake != nil {
				in.cfg.OnMake(in, st, x, n)
				if cp != n {
					in.cfg.OnMake(in, st, x, cp)
				}
			}
			if st.facts.eval(mkLtInt(n, mkInt(0))) > 0 {
				in.panicOut(st, fr, "makeslice: len out of range", x.Pos(), out)
				return
			}
			o := in.newObj(st, types.NewPointer(x.Type()), "make@"+in.shortpos(x.Pos(), fr))
			fr.env[x] = mk(OView, x.Type(), "", o, mkInt(0), n)
			if k, ok := cp.i64(); ok {
				st.ext[capKey(o)] = int(k)
			}
			if _, k := cp.i64(); !k {
				// symbolic extent: the whole content as one sequence
				st.heap[contentKey(o)] = seqAtom(x.Type(), "zeros", cp)
			}
		case *ssa.MakeMap:
			if x.Reserve != nil {
				n := in.val(st, fr, x.Reserve)
				_ = n
			}
			o := in.newObj(st, types.NewPointer(x.Type()), "map@"+in.shortpos(x.Pos(), fr))
			m := mk(OMap, x.Type(), "", o)
			st.heap[mapKey(m)] = mk(OMap, x.Type(), "empty")
			fr.env[x] = m
		case *ssa.MakeChan:
			n := in.val(st, fr, x.Size)
			o := in.newObj(st, types.NewPointer(x.Type()), "chan@"+in.shortpos(x.Pos(), fr))
			fr.env[x] = I.mk(&Val{op: OConv, typ: x.Type(), aux: "mem", args: []*Val{o, n}}, "chan")
		case *ssa.MakeClosure:
			var bs []*Val
			for _, v := range x.Bindings {
				bs = append(bs, in.val(st, fr, v))
			}
			f := x.Fn.(*ssa.Function)
			fr.env[x] = I.mk(&Val{op: OClosure, typ: x.Type(), aux: f.RelString(nil), args: bs, obj: f}, "")
		case *ssa.Slice:
			r, why := in.slice(st, fr, x)
			if why != "" {
				in.panicOut(st, fr, why, x.Pos(), out)
				return
			}
			fr.env[x] = r
		case *ssa.SliceToArrayPointer:
			a := in.val(st, fr, x.X)
			if a.op == OView {
				if z, ok := a.args[1].i64(); ok && z == 0 {
					o := a.args[0]
					fr.env[x] = mk(o.op, x.Type(), o.aux, o.args...)
					continue
				}
			}
			in.fail("slice to array pointer at %s", in.where(x.Pos()))
			return
		case *ssa.MultiConvert:
			in.fail("multiconvert")
			return
		case *ssa.Store:
			a, v := in.val(st, fr, x.Addr), in.val(st, fr, x.Val)
			if a.isNil() || st.facts.isnil[a] {
				in.panicOut(st, fr, "nil pointer dereference", x.Pos(), out)
				return
			}
			if in.cfg.OnDeref != nil {
				in.cfg.OnDeref(in, st, x, a, "store")
			}
			if in.cfg.OnStore != nil {
				in.cfg.OnStore(in, st, x, a, v)
			}
			in.store(st, a, v)
		case *ssa.MapUpdate:
			m, key, v := in.val(st, fr, x.Map), in.val(st, fr, x.Key), in.val(st, fr, x.Value)
			if m.isNil() {
				in.panicOut(st, fr, "assignment to entry in nil map", x.Pos(), out)
				return
			}
			if in.cfg.OnStore != nil {
				in.cfg.OnStore(in, st, x, m, v)
			}
			mk0 := mapKey(m)
			cur := in.mapContent(st, m)
			if in.cfg.Coll && finiteMap(cur) {
				if k2, split := in.mapSplit(st, fr, b, k, cur, key, out); split {
					key = k2
				} else {
					return
				}
				st.heap[mk0] = mapSet(st, cur, key, v)
				continue
			}
			st.heap[mk0] = mapUpd(cur, st.facts.simp(key), v)
		case *ssa.Lookup:
			if in.cfg.Coll {
				if done := in.lookupColl(st, fr, b, k, x, out); done {
					return
				}
				if fr.env[x] != nil && !isString(in.val(st, fr, x.X).typ) && finiteMap(in.mapContent(st, in.val(st, fr, x.X))) {
					continue
				}
			}
			in.lookup(st, fr, x)
		case *ssa.TypeAssert:
			if in.typeAssert(st, fr, b, k, x, out) {
				return
			}
		case *ssa.Range:
			fr.env[x] = mk(OTuple, x.X.Type(), st.label("range:"+fr.id+x.Name()), in.val(st, fr, x.X))
		case *ssa.Next:
			in.next(st, fr, b, k, x, out)
			return
		case *ssa.Send:
			ch := in.val(st, fr, x.Chan)
			if in.cfg.Coll && isQueue(ch) {
				if why := in.send(st, ch, in.val(st, fr, x.X)); why != "" {
					in.panicOut(st, fr, why, x.Pos(), out)
					return
				}
				continue
			}
			st.add(&Event{kind: EvSend, name: "send", recv: ch, args: []*Val{in.val(st, fr, x.X)}, pos: x.Pos(), in: fr.fn})
		case *ssa.Select:
			in.selectStmt(st, fr, b, k, x, out)
			return
		case *ssa.Go:
			in.goStmt(st, fr, b, k, x, out)
			return
		case *ssa.Defer:
			d := deferRec{call: &x.Call, pos: x.Pos()}
			d.fn, d.recv, d.args = in.callOperands(st, fr, &x.Call)
			fr.defers = append(fr.defers, d)
			ev := &Event{kind: EvDefer, name: "defer", pos: x.Pos(), in: fr.fn, recv: d.recv, args: d.args}
			ev.name, ev.method, _ = in.calleeName(&x.Call, d.fn)
			st.add(ev)
		case *ssa.RunDefers:
			outs := in.runDefers(st, fr)
			for i, o := range outs {
				f2 := fr
				if i < len(outs)-1 {
					f2 = in.fork(fr)
				}
				f2.defers = nil
				if o.kind == XPanic {
					*out = append(*out, o)
					continue
				}
				if o.kind == XCut {
					*out = append(*out, o)
					continue
				}
				in.instrs(o.st, f2, b, k+1, out)
			}
			return
		case *ssa.Call:
			outs := in.call(st, fr, &x.Call, x, x.Pos())
			for i, o := range outs {
				if o.kind == XCut {
					*out = append(*out, o)
					continue
				}
				f2 := fr
				if i < len(outs)-1 {
					f2 = in.fork(fr)
				}
				if o.kind == XPanic {
					in.panicOut(o.st, f2, o.why, o.pos, out)
					continue
				}
				f2.env[x] = packRes(x.Type(), o.rets)
				in.instrs(o.st, f2, b, k+1, out)
			}
			return
		case *ssa.If:
			c := in.val(st, fr, x.Cond)
			t := st.facts.eval(c)
			if t != 0 {
				n := 0
				if t < 0 {
					n = 1
				}
				in.block(st, fr, b.Succs[n], b, out)
				return
			}
			if in.cfg.Coalesce && in.caseChain(st, fr, b, x, c, out) {
				return
			}
			s2 := st.clone()
			f2 := in.fork(fr)
			cs := in.branchDesc(x, c)
			if st.facts.assume(c, true) {
				st.log = append(st.log, cs)
				in.block(st, fr, b.Succs[0], b, out)
			}
			if s2.facts.assume(c, false) {
				s2.log = append(s2.log, "not "+cs)
				in.block(s2, f2, b.Succs[1], b, out)
			}
			return
		case *ssa.Jump:
			in.block(st, fr, b.Succs[0], b, out)
			return
		case *ssa.Return:
			rets := make([]*Val, len(x.Results))
			for i, r := range x.Results {
				rets[i] = in.val(st, fr, r)
			}
			*out = append(*out, Outcome{st: st, kind: XReturn, rets: rets, pos: x.Pos()})
			return
		case *ssa.Panic:
			fr.panicV = in.val(st, fr, x.X)
			in.panicOut(st, fr, "explicit panic", x.Pos(), out)
			return
		default:
			in.fail("unsupported instruction %T in %s", x, fr.fn)
			return
		}
	}
}

// caseChain follows a chain of comparisons of one value with constants that
// lead to the same place (a switch case with several values) once per interval
// of values instead of once per value.
func (in *Interp) caseChain(st *State, fr *Frame, b *ssa.BasicBlock, x *ssa.If, c *Val, out *[]Outcome) bool {
	caseOf := func(c *Val) (*Val, *big.Int) {
		if c.op == OEq && isInt(c.args[0].typ) {
			if k, ok := c.args[1].intConst(); ok {
				return c.args[0], k
			}
		}
		return nil, nil
	}
	v, k := caseOf(c)
	if v == nil {
		return false
	}
	to := b.Succs[0]
	if _, ok := to.Instrs[0].(*ssa.Phi); ok || isHeader(to) {
		return false
	}
	set := []*big.Int{k}
	cur := b
	for {
		nb := cur.Succs[1]
		if len(nb.Preds) != 1 || nb == to {
			break
		}
		last, ok := nb.Instrs[len(nb.Instrs)-1].(*ssa.If)
		if !ok || nb.Succs[0] != to {
			break
		}
		f2 := fr.clone()
		s2 := st.clone()
		for _, i := range nb.Instrs[:len(nb.Instrs)-1] {
			switch y := i.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.DebugRef:
			case *ssa.UnOp:
				ok = ok && y.Op == token.MUL
			default:
				ok = false
			}
			if _, d := i.(*ssa.DebugRef); d || !ok {
				continue
			}
			if in.simple(s2, f2, i) != "" {
				ok = false
			}
		}
		if !ok || f2.env[last.Cond] == nil {
			break
		}
		v2, k2 := caseOf(f2.env[last.Cond])
		if v2 != v {
			break
		}
		*fr = *f2
		set = append(set, k2)
		cur = nb
	}
	if len(set) < 2 {
		return false
	}
	sorted := append([]*big.Int(nil), set...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].Cmp(sorted[j]) < 0 })
	one := big.NewInt(1)
	for i := 0; i < len(sorted); {
		j := i
		for j+1 < len(sorted) && new(big.Int).Sub(sorted[j+1], sorted[j]).Cmp(one) <= 0 {
			j++
		}
		s2 := st.clone()
		ok := true
		if i == j {
			ok = s2.facts.assume(mkEq(v, mkBig(v.typ, sorted[i])), true)
		} else {
			s2.facts.refine(v, Range{sorted[i], sorted[j]})
			r := rangeOf(v, s2.facts)
			ok = r.lo.Cmp(r.hi) <= 0
			if ok && r.lo.Cmp(r.hi) == 0 {
				ok = s2.facts.assume(mkEq(v, mkBig(v.typ, r.lo)), true)
			}
		}
		if ok {
			s2.log = append(s2.log, fmt.Sprintf("%v in %v..%v", v, sorted[i], sorted[j]))
			in.block(s2, in.fork(fr), to, b, out)
		}
		i = j + 1
	}
	for _, k := range sorted {
		if !st.facts.assume(mkEq(v, mkBig(v.typ, k)), false) {
			return true
		}
		if r := rangeOf(v, st.facts); r.lo.Cmp(r.hi) > 0 {
			return true
		}
	}
	st.log = append(st.log, fmt.Sprintf("%v none of %v", v, sorted))
	in.block(st, fr, cur.Succs[1], cur, out)
	return true
}

func (in *Interp) branchDesc(x *ssa.If, c *Val) string {
	p := x.Cond.Pos()
	s := c.str(6)
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s + " @" + in.where(p)
}

func (in *Interp) shortpos(p token.Pos, fr *Frame) string {
	if !p.IsValid() {
		return fr.id
	}
	return in.where(p)
}

func packRes(t types.Type, rets []*Val) *Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return mk(OTuple, t, "")
		}
		return mk(OTuple, t, "", rets...)
	}
	if len(rets) == 0 {
		return mk(OTuple, t, "")
	}
	return rets[0]
}

// panicOut unwinds: runs the frame's deferred calls, honours recover.
func (in *Interp) panicOut(st *State, fr *Frame, why string, pos token.Pos, out *[]Outcome) {
	if len(fr.defers) == 0 {
		*out = append(*out, Outcome{st: st, kind: XPanic, why: why, pos: pos})
		return
	}
	if fr.panicV == nil {
		fr.panicV = atom(types.NewInterfaceType(nil, nil), "panicvalue:"+why)
	}
	fr.recovered = false
	st.ext["panicking"]++
	outs := in.runDefers(st, fr)
	for i, o := range outs {
		f2 := fr
		if i < len(outs)-1 {
			f2 = in.fork(fr)
		}
		f2.defers = nil
		if o.st.ext["panicking"] == 0 && o.kind == XReturn {
			// recovered
			if f2.fn.Recover != nil {
				in.block(o.st, f2, f2.fn.Recover, nil, out)
			} else {
				var z []*Val
				rs := f2.fn.Signature.Results()
				for j := 0; j < rs.Len(); j++ {
					z = append(z, zeroVal(rs.At(j).Type()))
				}
				*out = append(*out, Outcome{st: o.st, kind: XReturn, rets: z, pos: pos})
			}
			continue
		}
		if o.st.ext["panicking"] > 0 {
			o.st.ext["panicking"]--
		}
		if o.kind == XCut {
			*out = append(*out, o)
			continue
		}
		w := why
		if o.kind == XPanic {
			w = o.why
		}
		*out = append(*out, Outcome{st: o.st, kind: XPanic, why: w, pos: pos})
	}
}

func (in *Interp) runDefers(st *State, fr *Frame) []Outcome {
	cur := []Outcome{{st: st, kind: XReturn}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var nxt []Outcome
		for _, o := range cur {
			if o.kind == XCut {
				nxt = append(nxt, o)
				continue
			}
			o.st.ext["indefer"]++
			rs := in.dispatch(o.st, fr, d.call, d.fn, d.recv, d.args, d.pos, true)
			for _, r := range rs {
				r.st.ext["indefer"]--
				if r.kind == XReturn {
					r.kind = o.kind
					r.why = o.why
				}
				nxt = append(nxt, r)
			}
		}
		cur = nxt
	}
	return cur
}

// callOperands evaluates the operands of a call.
func (in *Interp) callOperands(st *State, fr *Frame, c *ssa.CallCommon) (fn, recv *Val, args []*Val) {
	if c.IsInvoke() {
		recv = in.val(st, fr, c.Value)
	} else {
		fn = in.val(st, fr, c.Value)
	}
	for _, a := range c.Args {
		v := in.val(st, fr, a)
		args = append(args, v)
	}
	return
}

func (in *Interp) calleeName(c *ssa.CallCommon, fn *Val) (name, method string, sf *ssa.Function) {
	if c.IsInvoke() {
		return "iface " + typeName(c.Value.Type()) + "." + c.Method.Name(), c.Method.Name(), nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name(), b.Name(), nil
	}
	if fn != nil && (fn.op == OFn || fn.op == OClosure) {
		f := fn.obj.(*ssa.Function)
		return fnName(f), f.Name(), f
	}
	return "dynamic", "dynamic", nil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func fnName(f *ssa.Function) string { return f.RelString(nil) }

func (in *Interp) call(st *State, fr *Frame, c *ssa.CallCommon, site ssa.Value, pos token.Pos) []Outcome {
	in.ownSorted(st, fr, c)
	fn, recv, args := in.callOperands(st, fr, c)
	return in.dispatch(st, fr, c, fn, recv, args, pos, false)
}

// dispatch performs a call with evaluated operands.
func (in *Interp) dispatch(st *State, fr *Frame, c *ssa.CallCommon, fn, recv *Val, args []*Val, pos token.Pos, deferred bool) []Outcome {
	if in.err != nil {
		return nil
	}
	if c.IsInvoke() {
		if recv.isNil() || st.facts.isnil[recv] {
			return []Outcome{{st: st, kind: XPanic, why: "method call on nil interface", pos: pos}}
		}
		if in.cfg.OnDeref != nil {
			in.cfg.OnDeref(in, st, nil, recv, "invoke "+c.Method.Name()+" at "+in.where(pos))
		}
		// devirtualise
		var dt types.Type
		var inner *Val
		if recv.op == OIface {
			dt, inner = recv.args[0].typ, recv.args[0]
		} else if t, ok := st.facts.dyn[recv]; ok && !isIface(t) {
			dt, inner = t, mk(OAssert, t, "", recv)
		}
		if dt != nil {
			if m := in.prog.Method(dt, c.Method); m != nil {
				if in.lookInto(m) {
					return in.callFn(m, append([]*Val{inner}, args...), nil, st)
				}
				ci := &callInfo{fn: c.Method, sfn: m, name: fnName(m), recv: inner, args: args, sig: c.Signature(), pos: pos, in: fr.fn}
				return in.external(st, ci, deferred)
			}
		}
		ci := &callInfo{fn: c.Method, name: "iface " + typeName(c.Value.Type()) + "." + c.Method.Name(), recv: recv, args: args, sig: c.Signature(), pos: pos, in: fr.fn, iface: true}
		return in.external(st, ci, deferred)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, fr, b, c, args, pos)
	}
	if fn.isNil() || st.facts.isnil[fn] {
		return []Outcome{{st: st, kind: XPanic, why: "call of nil function", pos: pos}}
	}
	switch fn.op {
	case OFn:
		f := fn.obj.(*ssa.Function)
		return in.static(st, fr, f, args, nil, pos, deferred)
	case OClosure:
		f := fn.obj.(*ssa.Function)
		return in.static(st, fr, f, args, fn.args, pos, deferred)
	}
	ci := &callInfo{name: "dynamic", recv: fn, args: args, sig: c.Signature(), pos: pos, in: fr.fn}
	return in.external(st, ci, deferred)
}

func (in *Interp) lookInto(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if in.cfg.Opaque != nil && in.cfg.Opaque(f) {
		return false
	}
	return in.prog.Owned(f) || f.Pkg != nil && (f.Pkg == in.prog.Shim || f.Pkg == in.prog.User || in.prog.Gen[f.Pkg.Pkg]) || in.prog.ofStd(f) || in.prog.userWrapper(f)
}

func (in *Interp) static(st *State, fr *Frame, f *ssa.Function, args, free []*Val, pos token.Pos, deferred bool) []Outcome {
	if in.lookInto(f) {
		// recursion: opaque beyond the first level
		n := 0
		for _, s := range in.stack {
			if s == f {
				n++
			}
		}
		if n <= in.cfg.Recur {
			return in.callFn(f, args, free, st)
		}
	}
	ci := &callInfo{sfn: f, name: fnName(f), args: args, sig: f.Signature, pos: pos, in: fr.fn}
	if o, ok := f.Object().(*types.Func); ok {
		ci.fn = o
	}
	if f.Signature.Recv() != nil && len(args) > 0 {
		ci.recv, ci.args = args[0], args[1:]
	}
	if len(free) > 0 {
		ci.args = append(ci.args, free...)
	}
	return in.external(st, ci, deferred)
}

// external handles a call that is not looked into: models, then the default.
func (in *Interp) external(st *State, ci *callInfo, deferred bool) []Outcome {
	if in.cfg.Model != nil {
		if mo, ok := in.cfg.Model(in, st, ci); ok {
			return modelOuts(mo, ci.pos)
		}
	}
	if f := in.shim(st, ci); f != nil {
		return in.callFn(f, ci.args, nil, st)
	}
	if mo, ok := in.stdModel(st, ci); ok {
		return modelOuts(mo, ci.pos)
	}
	ev := in.record(st, ci)
	ev.dfr = deferred || st.ext["indefer"] > 0
	ev.panicking = st.ext["panicking"] > 0
	outs := []Outcome{}
	if in.cfg.MayPanic != nil && in.cfg.MayPanic(ev) {
		s2 := st.clone()
		outs = append(outs, Outcome{st: s2, kind: XPanic, why: "panic inside " + ci.name, pos: ci.pos})
	}
	outs = append(outs, Outcome{st: st, kind: XReturn, rets: ev.res, pos: ci.pos})
	return outs
}

// fork copies a frame for another path.
func (in *Interp) fork(fr *Frame) *Frame {
	in.forks++
	return fr.clone()
}

func modelOuts(mo []modelOut, pos token.Pos) []Outcome {
	var outs []Outcome
	for _, m := range mo {
		k := XReturn
		if m.panic != "" {
			k = XPanic
		}
		outs = append(outs, Outcome{st: m.st, kind: k, rets: m.res, why: m.panic, pos: pos})
	}
	return outs
}

// record adds the event of an opaque call with unknown results and clobbers what it may write.
func (in *Interp) record(st *State, ci *callInfo) *Event {
	ev := &Event{kind: EvCall, name: ci.name, fn: ci.fn, recv: ci.recv, args: ci.args, pos: ci.pos, in: ci.in}
	if ci.fn != nil {
		ev.method = ci.fn.Name()
	} else if ci.sfn != nil {
		ev.method = ci.sfn.Name()
	}
	for _, a := range ci.args {
		if a.typ != nil && (isSlice(a.typ) || isString(a.typ)) {
			ev.snaps = append(ev.snaps, in.content(st, a))
		} else {
			ev.snaps = append(ev.snaps, a)
		}
	}
	label := st.label("ret:" + ev.method + "@" + in.evKey(ci))
	rs := ci.sig.Results()
	for i := 0; i < rs.Len(); i++ {
		ev.res = append(ev.res, in.unknown(st, rs.At(i).Type(), fmt.Sprintf("%s.%d", label, i)))
	}
	in.clobber(st, ci, label)
	st.add(ev)
	if in.cfg.OnCall != nil {
		in.cfg.OnCall(in, st, ev)
	}
	return ev
}

// evKey keys fresh results by the ordinal of the call along the path so that
// moving code around does not matter.
func (in *Interp) evKey(ci *callInfo) string { return "" }

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// clobber forgets the contents of memory handed to an opaque call by pointer
// or mutable slice. Writers (io.Writer contract) do not modify their argument.
func (in *Interp) clobber(st *State, ci *callInfo, label string) {
	m := ""
	if ci.fn != nil {
		m = ci.fn.Name()
	}
	if strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Put") || in.readOnly(ci) {
		return
	}
	for i, a := range ci.args {
		if a.op == OView {
			in.setContent(st, a, seqAtom(a.typ, fmt.Sprintf("%s.buf%d", label, i), a.args[2]))
			continue
		}
		if a.op == OIface {
			a = a.args[0]
		}
		in.clobberObj(st, a, label)
	}
	if ci.recv != nil && !in.readOnly(ci) {
		in.clobberObj(st, ci.recv, label)
	}
}

func (in *Interp) clobberObj(st *State, a *Val, label string) {
	if a.op == OIface {
		a = a.args[0]
	}
	if a.op != OObj && a.op != OFieldAddr {
		return
	}
	// an object of a library-owned type keeps its private state when handed to foreign code
	if et := elemType(a.typ); et != nil {
		if n, ok := et.(*types.Named); ok && n.Obj().Pkg() == in.prog.Thrift.Pkg {
			return
		}
	}
	for k := range st.heap {
		x := k
		for {
			if x == a {
				st.heap[k] = in.unknown(st, st.heap[k].typ, label+".clob")
				break
			}
			if x.op != OFieldAddr && x.op != OIndexAddr {
				break
			}
			x = x.args[0]
		}
	}
	if a.op == OObj {
		if d, ok := st.def[a]; ok && d == "zero" {
			st.def[a] = label + ".clob"
		}
	}
}

func (in *Interp) readOnly(ci *callInfo) bool {
	if ci.sfn == nil {
		return false
	}
	if p := ci.sfn.Pkg; p != nil {
		switch p.Pkg.Path() {
		case "fmt", "strconv", "strings", "errors", "reflect", "unicode", "unicode/utf8", "math", "time":
			return true
		}
		if p.Pkg == in.prog.Thrift.Pkg {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------ maps

func mapKey(m *Val) *Val { return mk(OFieldAddr, m.typ, "mapcontent", m) }

func (in *Interp) mapContent(st *State, m *Val) *Val {
	if c, ok := st.heap[mapKey(m)]; ok {
		return c
	}
	if m.isNil() {
		return mk(OMap, m.typ, "empty")
	}
	return mk(OMap, m.typ, "content", m)
}

func mapUpd(cur, k, v *Val) *Val {
	// replace an older binding of the same key
	if cur.op == OMapUpd {
		if cur.args[1] == k {
			return mapUpd(cur.args[0], k, v)
		}
		if keysDiffer(cur.args[1], k) && hasKey(cur.args[0], k) {
			return mk(OMapUpd, cur.typ, "", mapUpd(cur.args[0], k, v), cur.args[1], cur.args[2])
		}
	}
	return mk(OMapUpd, cur.typ, "", cur, k, v)
}

func hasKey(m, k *Val) bool {
	for m.op == OMapUpd {
		if m.args[1] == k {
			return true
		}
		if !keysDiffer(m.args[1], k) {
			return false
		}
		m = m.args[0]
	}
	return false
}

func keysDiffer(a, b *Val) bool {
	e := mkEq(a, b)
	c, ok := e.boolConst()
	return ok && !c
}

func mapLookup(m, k *Val, et types.Type) (v, ok *Val) {
	for {
		if m.op == OMapUpd {
			if m.args[1] == k {
				return m.args[2], mkBool(true)
			}
			if keysDiffer(m.args[1], k) {
				m = m.args[0]
				continue
			}
		}
		if m.op == OMap && m.aux == "empty" {
			return zeroVal(et), mkBool(false)
		}
		break
	}
	return mk(OLookup, et, "v", m, k), mk(OLookup, tBool, "ok", m, k)
}

func (in *Interp) lookup(st *State, fr *Frame, x *ssa.Lookup) {
	m, k := in.val(st, fr, x.X), st.facts.simp(in.val(st, fr, x.Index))
	if isString(m.typ) {
		n := mkLen(m)
		in.bounds(st, x, n, k)
		fr.env[x] = seqIndex(m, k, x.Type())
		return
	}
	et := m.typ.Underlying().(*types.Map).Elem()
	v, ok := mapLookup(in.mapContent(st, m), k, et)
	if x.CommaOk {
		fr.env[x] = mk(OTuple, x.Type(), "", v, ok)
	} else {
		fr.env[x] = v
	}
}

// ------------------------------------------------------------------ slices

func (in *Interp) slice(st *State, fr *Frame, x *ssa.Slice) (*Val, string) {
	a := in.val(st, fr, x.X)
	get := func(v ssa.Value, d *Val) *Val {
		if v == nil {
			return d
		}
		r := st.facts.simpConst(in.val(st, fr, v))
		if r.typ != tInt {
			r = convert(r, tInt)
		}
		return r
	}
	var n *Val
	isArr := false
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			n = mkInt(arr.Len())
			isArr = true
		}
	}
	if n == nil {
		n = mkLen(a)
	}
	lo := get(x.Low, mkInt(0))
	hi := get(x.High, n)
	if in.cfg.OnSlice != nil {
		var mx *Val
		if x.Max != nil {
			mx = get(x.Max, n)
		}
		in.cfg.OnSlice(in, st, x, a, lo, hi, mx)
	}
	if st.facts.eval(mkLtInt(lo, mkInt(0))) > 0 || st.facts.eval(mkLtInt(hi, lo)) > 0 {
		return nil, "slice bounds out of range"
	}
	ln := fromLin(tInt, linAdd(toLin(hi), toLin(lo), -1))
	// a limited capacity is kept as a fourth argument
	var limit []*Val
	if in.cfg.Coll {
		if x.Max != nil {
			limit = append(limit, fromLin(tInt, linAdd(toLin(get(x.Max, n)), toLin(lo), -1)))
		} else if a.op == OView && len(a.args) == 4 {
			limit = append(limit, fromLin(tInt, linAdd(toLin(a.args[3]), toLin(lo), -1)))
		}
	}
	if isArr {
		return mk(OView, x.Type(), "", append([]*Val{a, lo, ln}, limit...)...), ""
	}
	if a.op == OView {
		return mk(OView, x.Type(), "", append([]*Val{a.args[0], fromLin(tInt, linAdd(toLin(a.args[1]), toLin(lo), 1)), ln}, limit...)...), ""
	}
	if isString(a.typ) {
		r := seqSub(a, lo, hi)
		return r, ""
	}
	if a.isNil() {
		return a, ""
	}
	return seqSub(in.content(st, a), lo, hi), ""
}

func capKey(o *Val) string { return "cap:" + o.String() }

// appendInPlace appends where the array is known to have room behind the slice:
// Go then writes into it, whoever else looks at that array.
func (in *Interp) appendInPlace(st *State, x, y *Val) *Val {
	if x.op != OView {
		return nil
	}
	base := x.args[0]
	off, ok1 := x.args[1].i64()
	n, ok2 := x.args[2].i64()
	m, ok3 := mkLen(y).i64()
	if !ok1 || !ok2 || !ok3 {
		return nil
	}
	room := int64(-1)
	if c, ok := st.heap[contentKey(base)]; ok {
		if l, ok := mkLen(c).i64(); ok {
			room = l
		}
	} else if k, ok := st.ext[capKey(base)]; ok {
		room = int64(k)
	} else if p, ok := base.typ.Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			room = arr.Len()
		}
	}
	rest := x.args[3:]
	if len(rest) == 1 {
		k, ok := rest[0].i64()
		if !ok || off+k < room {
			room = off + k
		}
		if !ok {
			return nil
		}
	}
	if off+n+m > room {
		return nil
	}
	if m > 0 {
		in.setContent(st, mk(OView, x.typ, "", base, mkInt(off+n), mkInt(m)), y)
	}
	return mk(OView, x.typ, "", append([]*Val{base, x.args[1], mkInt(n + m)}, rest...)...)
}

func (in *Interp) builtinLen(st *State, fr *Frame, x *ssa.Call) *Val {
	v, ok := fr.env[x.Call.Args[0]]
	if !ok {
		v = in.val(st, fr, x.Call.Args[0])
	}
	return st.facts.simpConst(mkLen(v))
}

func (in *Interp) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, pos token.Pos) []Outcome {
	ret := func(v ...*Val) []Outcome { return []Outcome{{st: st, kind: XReturn, rets: v, pos: pos}} }
	switch b.Name() {
	case "len":
		if _, ok := args[0].typ.Underlying().(*types.Map); ok {
			if c := in.mapContent(st, args[0]); in.cfg.Coll && finiteMap(c) {
				return ret(mkInt(int64(len(mapPairs(c)))))
			}
			return ret(mapLen(in.mapContent(st, args[0])))
		}
		return ret(st.facts.simpConst(mkLen(args[0])))
	case "cap":
		if args[0].op == OView {
			return ret(mk(OCap, tInt, "", args[0]))
		}
		return ret(mk(OCap, tInt, "", args[0]))
	case "append":
		x := args[0]
		cx := in.content(st, x)
		kinds := []byte{'s', 's'}
		y := in.content(st, args[1])
		r := mkSeq(x.typ, []*Val{cx, y}, kinds)
		if in.cfg.Coll && !isByteSlice(x.typ) {
			if v := in.appendInPlace(st, x, y); v != nil {
				return ret(v)
			}
			// an array of its own: whoever holds the result sees what is written into it
			if n, ok := mkLen(r).i64(); ok && n > 0 {
				o := in.newObj(st, types.NewPointer(x.typ.Underlying().(*types.Slice).Elem()), "appended")
				st.heap[contentKey(o)] = r
				r = mk(OView, x.typ, "", o, mkInt(0), mkInt(n))
			}
		}
		return ret(r)
	case "copy":
		d, s := args[0], in.content(st, args[1])
		if d.op == OSeq && len(d.args) > 0 && isSlice(d.typ) {
			d = in.materialise(st, fr, c.Args[0], d)
		}
		dn, sn := mkLen(d), mkLen(s)
		n := mk(OCall, tInt, "min", dn, sn)
		if dn == sn {
			n = dn
			in.setContent(st, d, s)
		} else if a, ok := dn.i64(); ok {
			if b, ok := sn.i64(); ok {
				n = mkInt(min64(a, b))
				if b < a {
					in.setContent(st, mk(OView, d.typ, "", d.args[0], d.args[1], n), s)
				} else {
					in.setContent(st, d, seqSub(s, mkInt(0), n))
				}
			} else if d.op == OView {
				in.setContent(st, d, seqAtom(d.typ, st.label("copied"), dn))
			}
		} else if d.op == OView {
			// length relation may be decided by facts
			if t := st.facts.eval(mkLtInt(dn, sn)); t > 0 {
				n = dn
				in.setContent(st, d, seqSub(s, mkInt(0), dn))
			} else if st.facts.eval(mkLtInt(sn, dn)) > 0 {
				n = sn
				in.setContent(st, mk(OView, d.typ, "", d.args[0], d.args[1], sn), s)
			} else {
				in.setContent(st, d, seqAtom(d.typ, st.label("copied"), dn))
			}
		}
		return ret(n)
	case "delete":
		m := args[0]
		cur := in.mapContent(st, m)
		st.heap[mapKey(m)] = mapDel(cur, args[1])
		return ret()
	case "close":
		if in.cfg.Coll && isQueue(args[0]) {
			if why := in.closeQueue(st, args[0]); why != "" {
				return []Outcome{{st: st, kind: XPanic, why: why, pos: pos}}
			}
			return ret()
		}
		st.add(&Event{kind: EvClose, name: "close", recv: args[0], pos: pos, in: fr.fn, dfr: st.ext["indefer"] > 0})
		return ret()
	case "recover":
		if st.ext["panicking"] > 0 && st.ext["indefer"] > 0 {
			st.ext["panicking"]--
			v := atom(types.NewInterfaceType(nil, nil), st.label("recovered"))
			st.facts.isnil[v] = false
			return ret(v)
		}
		return ret(mkNil(types.NewInterfaceType(nil, nil)))
	case "print", "println":
		return ret()
	case "min", "max":
		if len(args) == 2 {
			t := st.facts.eval(ltAny(args[0], args[1]))
			pick := func(lt bool) *Val {
				if lt == (b.Name() == "min") {
					return args[0]
				}
				return args[1]
			}
			if t != 0 {
				return ret(pick(t > 0))
			}
			s2 := st.clone()
			var outs []Outcome
			if st.facts.assume(ltAny(args[0], args[1]), true) {
				outs = append(outs, Outcome{st: st, kind: XReturn, rets: []*Val{pick(true)}, pos: pos})
			}
			if s2.facts.assume(ltAny(args[0], args[1]), false) {
				outs = append(outs, Outcome{st: s2, kind: XReturn, rets: []*Val{pick(false)}, pos: pos})
			}
			return outs
		}
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	in.fail("unsupported builtin %s", b.Name())
	return nil
}

func mapLen(m *Val) *Val {
	n := int64(0)
	for m.op == OMapUpd {
		n++
		m = m.args[0]
	}
	if m.op == OMap && m.aux == "empty" {
		return mkInt(n)
	}
	return mk(OLen, tInt, "", m)
}

func mapDel(m, k *Val) *Val {
	if m.op == OMapUpd {
		if m.args[1] == k {
			return mapDel(m.args[0], k)
		}
		if keysDiffer(m.args[1], k) {
			return mk(OMapUpd, m.typ, "", mapDel(m.args[0], k), m.args[1], m.args[2])
		}
	}
	if m.op == OMap && m.aux == "empty" {
		return m
	}
	return mk(OMap, m.typ, "del", m, k)
}

// ------------------------------------------------------------------ control helpers

// typeAssert: returns true when it took over control flow.
func (in *Interp) typeAssert(st *State, fr *Frame, b *ssa.BasicBlock, k int, x *ssa.TypeAssert, out *[]Outcome) bool {
	v := in.val(st, fr, x.X)
	t := x.AssertedType
	good := func(s *State, f *Frame) {
		r := in.asserted(s, v, t)
		if x.CommaOk {
			f.env[x] = mk(OTuple, x.Type(), "", r, mkBool(true))
		} else {
			f.env[x] = r
		}
	}
	bad := func(s *State, f *Frame) bool {
		if x.CommaOk {
			f.env[x] = mk(OTuple, x.Type(), "", zeroVal(t), mkBool(false))
			return true
		}
		return false
	}
	d := in.hasType(st, v, t)
	if in.cfg.OnAssert != nil {
		in.cfg.OnAssert(in, st, x, v)
	}
	if d > 0 {
		good(st, fr)
		return false
	}
	if d < 0 {
		if bad(st, fr) {
			return false
		}
		in.panicOut(st, fr, "interface conversion", x.Pos(), out)
		return true
	}
	s2, f2 := st.clone(), in.fork(fr)
	// success
	if isIface(t) {
		st.facts.isnil[v] = false
		st.facts.truth[implKey(v, t)] = true
	} else {
		st.facts.dyn[v] = t
		st.facts.isnil[v] = false
	}
	st.log = append(st.log, fmt.Sprintf("%s is %s @%s", v.str(6), types.TypeString(t, qual), in.where(x.Pos())))
	good(st, fr)
	in.instrs(st, fr, b, k+1, out)
	// failure
	if isIface(t) {
		s2.facts.truth[implKey(v, t)] = false
	} else {
		s2.facts.ndyn[v] = append(append([]types.Type(nil), s2.facts.ndyn[v]...), t)
	}
	s2.log = append(s2.log, fmt.Sprintf("%s is not %s @%s", v.str(6), types.TypeString(t, qual), in.where(x.Pos())))
	if bad(s2, f2) {
		in.instrs(s2, f2, b, k+1, out)
	} else if in.cfg.PossiblePanics {
		in.panicOut(s2, f2, "interface conversion (possible)", x.Pos(), out)
	}
	return true
}

// implKey stands for "v has the methods of t its own type does not promise".
func implKey(v *Val, t types.Type) *Val {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return mk(OCall, tBool, "implements:"+typeName(t), v)
	}
	have := map[string]bool{}
	if v.typ != nil {
		if s, ok := v.typ.Underlying().(*types.Interface); ok {
			for i := 0; i < s.NumMethods(); i++ {
				have[methodText(s.Method(i))] = true
			}
		}
	}
	key := "implements"
	for i := 0; i < it.NumMethods(); i++ { // in a fixed order
		if m := methodText(it.Method(i)); !have[m] {
			key += ":" + m
		}
	}
	return mk(OCall, tBool, key, v)
}

func methodText(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	strip := func(t *types.Tuple) string {
		var s []string
		for i := 0; i < t.Len(); i++ {
			s = append(s, typeName(t.At(i).Type()))
		}
		return "(" + strings.Join(s, ",") + ")"
	}
	return m.Name() + strip(sig.Params()) + strip(sig.Results())
}

func (in *Interp) asserted(st *State, v *Val, t types.Type) *Val {
	if isIface(t) {
		return retypeIface(v, t)
	}
	if v.op == OIface {
		return v.args[0]
	}
	r := mk(OAssert, t, "", v)
	if _, ok := t.Underlying().(*types.Struct); ok {
		return r
	}
	return r
}

// hasType decides whether the dynamic type of v satisfies t.
func (in *Interp) hasType(st *State, v *Val, t types.Type) int {
	if v.isNil() || st.facts.isnil[v] {
		return -1
	}
	var dt types.Type
	if v.op == OIface {
		dt = v.args[0].typ
	} else if x, ok := st.facts.dyn[v]; ok {
		dt = x
	}
	if dt != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(dt, it) {
				return 1
			}
			return -1
		}
		if types.Identical(dt, t) {
			return 1
		}
		return -1
	}
	if isIface(t) {
		if b, ok := st.facts.truth[implKey(v, t)]; ok {
			if b {
				return 1
			}
			return -1
		}
		if n, ok := st.facts.nilness(v); ok && !n && v.typ != nil && isIface(v.typ) {
			if types.Implements(v.typ, t.Underlying().(*types.Interface)) {
				return 1
			}
		}
		return 0
	}
	for _, n := range st.facts.ndyn[v] {
		if types.Identical(n, t) {
			return -1
		}
	}
	if v.typ != nil && isIface(v.typ) {
		if it, ok := v.typ.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			if !types.Implements(t, it) {
				return -1
			}
		}
	}
	return 0
}

func (in *Interp) next(st *State, fr *Frame, b *ssa.BasicBlock, k int, x *ssa.Next, out *[]Outcome) {
	it := in.val(st, fr, x.Iter)
	coll := it.args[0]
	tt := x.Type().(*types.Tuple)
	s2, f2 := st.clone(), in.fork(fr)
	nx := atom(tBool, st.label("next:"+it.aux))
	if x.IsString {
		// iteration over runes of a string: exact while its bytes are known to be ASCII
		text := mkSeq(types.NewSlice(tByte), []*Val{coll}, []byte{'s'})
		at := st.ext["at:"+it.aux]
		if at >= 0 && at == len(text.args) {
			delete(st.ext, "at:"+it.aux)
			fr.env[x] = mk(OTuple, tt, "", mkBool(false), mkInt(0), zeroVal(types.Typ[types.Rune]))
			in.instrs(st, fr, b, k+1, out)
			return
		}
		if at >= 0 && at < len(text.args) && text.aux[at] == 'e' && st.facts.eval(mkLtInt(text.args[at], mkIntT(tByte, 0x80))) > 0 {
			st.ext["at:"+it.aux]++
			fr.env[x] = mk(OTuple, tt, "", mkBool(true), mkInt(int64(at)), convert(text.args[at], types.Typ[types.Rune]))
			in.instrs(st, fr, b, k+1, out)
			return
		}
		if at >= 0 && at < len(text.args) && text.aux[at] == 'e' {
			ascii := mkLtInt(text.args[at], mkIntT(tByte, 0x80))
			if s2.facts.assume(ascii, true) {
				s2.ext["at:"+it.aux]++
				f2.env[x] = mk(OTuple, tt, "", mkBool(true), mkInt(int64(at)), convert(text.args[at], types.Typ[types.Rune]))
				in.forks++
				in.instrs(s2, f2, b, k+1, out)
			}
			if st.facts.assume(ascii, false) {
				rv := atom(types.Typ[types.Rune], st.label("rune:"+it.aux))
				st.facts.refine(rv, Range{big.NewInt(0x80), big.NewInt(0x10ffff)})
				st.ext["at:"+it.aux] = -1
				fr.env[x] = mk(OTuple, tt, "", mkBool(true), mkInt(int64(at)), rv)
				in.instrs(st, fr, b, k+1, out)
			}
			return
		}
		if at >= 0 && at < len(text.args) && strings.HasPrefix(text.args[at].aux, "base64:") {
			// some base64 character
			rv := atom(types.Typ[types.Rune], st.label("rune:"+it.aux))
			st.facts.refine(rv, Range{big.NewInt('+'), big.NewInt('z')})
			for r := '+'; r <= 'z'; r++ {
				if !strings.ContainsRune(base64Chars, r) {
					st.facts.assume(mkEq(rv, mkIntT(types.Typ[types.Rune], int64(r))), false)
				}
			}
			st.ext["at:"+it.aux] = -1
			fr.env[x] = mk(OTuple, tt, "", mkBool(true), mkInt(int64(at)), rv)
			in.instrs(st, fr, b, k+1, out)
			return
		}
		st.ext["at:"+it.aux] = -1
		s2.ext["at:"+it.aux] = -1
		kv := atom(tInt, st.label("rkey:"+it.aux))
		st.facts.refine(kv, Range{big.NewInt(0), maxLen})
		rv := atom(tt.At(2).Type(), st.label("rune:"+it.aux))
		if tt.At(2).Type() == types.Typ[types.Invalid] {
			rv = atom(types.Typ[types.Rune], st.label("rune:"+it.aux))
		}
		fr.env[x] = mk(OTuple, tt, "", mkBool(true), kv, rv)
		st.facts.truth[nx] = true
		if n, ok := st.facts.simpConst(mkLen(coll)).i64(); !ok || n != 0 {
			in.instrs(st, fr, b, k+1, out)
		}
		f2.env[x] = mk(OTuple, tt, "", mkBool(false), mkInt(0), zeroVal(types.Typ[types.Rune]))
		in.instrs(s2, f2, b, k+1, out)
		return
	}
	mt, ok := coll.typ.Underlying().(*types.Map)
	if !ok {
		in.fail("range over %s", coll.typ)
		return
	}
	content := in.mapContent(st, coll)
	if in.cfg.Coll && finiteMap(content) {
		in.nextColl(st, fr, b, k, x, it, content, out)
		return
	}
	kv := atom(mt.Key(), st.label("mapkey:"+it.aux))
	vv := mk(OLookup, mt.Elem(), "v", content, kv)
	st.facts.truth[mk(OLookup, tBool, "ok", content, kv)] = true
	fr.env[x] = mk(OTuple, tt, "", mkBool(true), kv, vv)
	if !(content.op == OMap && content.aux == "empty") {
		in.instrs(st, fr, b, k+1, out)
	}
	f2.env[x] = mk(OTuple, tt, "", mkBool(false), zeroVal(mt.Key()), zeroVal(mt.Elem()))
	in.instrs(s2, f2, b, k+1, out)
}

func (in *Interp) selectStmt(st *State, fr *Frame, b *ssa.BasicBlock, k int, x *ssa.Select, out *[]Outcome) {
	tt := x.Type().(*types.Tuple)
	n := len(x.States)
	cases := n
	if !x.Blocking {
		cases++
	}
	for i := 0; i < cases; i++ {
		s2, f2 := st, fr
		if i < cases-1 {
			s2, f2 = st.clone(), in.fork(fr)
		}
		idx := int64(i)
		if i == n {
			idx = -1
		}
		args := []*Val{mkInt(idx), mkBool(true)}
		ri := 0
		for j, c := range x.States {
			if c.Dir == types.RecvOnly {
				t := tt.At(2 + ri).Type()
				ri++
				v := zeroVal(t)
				if j == i {
					v = in.unknown(s2, t, "selrecv")
					s2.add(&Event{kind: EvRecv, name: "recv", recv: in.val(s2, f2, c.Chan), pos: c.Pos, in: fr.fn, res: []*Val{v}})
					args[1] = atom(tBool, s2.label("recvok"))
				}
				args = append(args, v)
			} else if j == i {
				s2.add(&Event{kind: EvSend, name: "send", recv: in.val(s2, f2, c.Chan), args: []*Val{in.val(s2, f2, c.Send)}, pos: c.Pos, in: fr.fn})
			}
		}
		f2.env[x] = mk(OTuple, tt, "", args...)
		in.instrs(s2, f2, b, k+1, out)
	}
}

func (in *Interp) goStmt(st *State, fr *Frame, b *ssa.BasicBlock, k int, x *ssa.Go, out *[]Outcome) {
	fn, recv, args := in.callOperands(st, fr, &x.Call)
	name, method, sf := in.calleeName(&x.Call, fn)
	ev := &Event{kind: EvGo, name: name, method: method, recv: recv, args: args, pos: x.Pos(), in: fr.fn, callee: sf}
	if fn != nil && fn.op == OClosure {
		ev.snaps = fn.args
	}
	st.add(ev)
	if in.cfg.OnCall != nil {
		in.cfg.OnCall(in, st, ev)
	}
	if in.cfg.RunGo {
		st.ext["ingo"]++
		outs := in.dispatch(st, fr, &x.Call, fn, recv, args, x.Pos(), false)
		for i, o := range outs {
			if o.kind == XCut {
				*out = append(*out, o)
				continue
			}
			f2 := fr
			if i < len(outs)-1 {
				f2 = in.fork(fr)
			}
			o.st.ext["ingo"]--
			mark := &Event{kind: EvMark, name: "goend", pos: x.Pos(), in: fr.fn}
			if o.kind == XPanic {
				mark.method = "panic"
			}
			o.st.add(mark)
			in.instrs(o.st, f2, b, k+1, out)
		}
		return
	}
	in.instrs(st, fr, b, k+1, out)
}

var _ = constant.MakeBool
