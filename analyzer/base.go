package main

// The state the package initialiser leaves behind. Globals that nothing outside
// initialisation writes keep that value in every analysis; the others are unknown.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type baseState struct {
	st     *State
	constG map[*ssa.Global]bool
	err    error
}

func rootGlobal(v ssa.Value, depth int) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func (p *Program) initOnly() map[*ssa.Function]bool {
	// init functions and functions only called from them
	res := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	isInit := func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#")
	}
	for _, f := range p.all {
		if isInit(f) {
			res[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.all {
			if res[f] || len(callers[f]) == 0 {
				continue
			}
			if o := f.Object(); o != nil && o.Exported() || f.Signature.Recv() != nil {
				continue
			}
			ok := true
			for _, g := range callers[f] {
				ok = ok && res[g]
			}
			if ok {
				res[f] = true
				ch = true
			}
		}
	}
	return res
}

func (p *Program) base() *baseState {
	if p.bs != nil {
		return p.bs
	}
	bs := &baseState{constG: map[*ssa.Global]bool{}}
	p.bs = bs
	for _, m := range p.Thrift.Members {
		if g, ok := m.(*ssa.Global); ok {
			bs.constG[g] = true
		}
	}
	io := p.initOnly()
	for _, f := range p.all {
		if io[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if g := rootGlobal(x.Addr, 0); g != nil {
						bs.constG[g] = false
					}
				case *ssa.MapUpdate:
					if g := rootGlobal(x.Map, 0); g != nil {
						bs.constG[g] = false
					}
				}
				// the address of a global escaping into a call or a closure
				switch x := i.(type) {
				case *ssa.Call, *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.MakeInterface, *ssa.Phi, *ssa.Return:
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							bs.constG[g] = false
						}
					}
				case *ssa.Store:
					if g, ok := x.Val.(*ssa.Global); ok {
						bs.constG[g] = false
					}
				}
			}
		}
	}
	in := newInterp(p, Config{MaxSteps: 2_000_000})
	st := newState()
	if g, ok := p.Thrift.Members["init$guard"].(*ssa.Global); ok {
		st.heap[globalAddr(g)] = mkBool(false)
	}
	for q := range p.std { // packages with nothing to initialise that matters here
		if g, ok := q.Members["init$guard"].(*ssa.Global); ok {
			st.heap[globalAddr(g)] = mkBool(true)
		}
	}
	outs := in.Call(p.Thrift.Func("init"), nil, st)
	bs.err = in.err
	if in.err != nil || len(outs) != 1 || outs[0].kind != XReturn {
		bs.st = newState()
		return bs
	}
	s := outs[0].st
	s.trace = nil
	s.log = nil
	for k := range s.heap {
		if r := rootObj(k); r.op == OGlobal {
			if !bs.constG[r.obj.(*ssa.Global)] {
				delete(s.heap, k)
			}
		}
	}
	bs.st = s
	return bs
}

// start is a fresh state after package initialisation.
func (in *Interp) start() *State {
	bs := in.prog.base()
	in.base = bs.st
	in.constG = bs.constG
	return bs.st.clone()
}
