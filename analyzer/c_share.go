package main

// C29: objects of the library share nothing that changes.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = &check{run: runC29, min: 300,
		rule: "no function of the library, reachable in any way once the package is initialised, assigns to a package-level variable or to memory that was made while the package was initialised, unless it does so under a lock, in a sync.Once or by the operations of a type made for that",
		expl: "Inclusion-based points-to analysis of the whole package with two contexts, package initialisation and everything after: the targets of every store, map update, append, copy, delete and of every call that may write through an argument are looked at in every function.",
		asm:  []string{"user code does not write through the package's exported variables", "functions of the standard library change only what their documentation says they change"},
	}
}

func runC29(c *Ctx) {
	a := runPTA(c.prog)
	if a.iters > 60 {
		c.undecided("share", "points-to analysis", "no fixpoint after %d rounds", a.iters)
		return
	}
	bad := map[*ssa.Function][]string{}
	var hs []ptHit
	for _, h := range a.hits {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].pos < hs[j].pos || hs[i].pos == hs[j].pos && hs[i].o.id < hs[j].o.id })
	for _, h := range hs {
		what := fmt.Sprintf("%s, made at %s while the package is initialised", h.o, c.pos(h.o.at))
		if h.o.glob != nil {
			what = "the package-level " + h.o.String()
		} else if g := a.holders(h.o); len(g) > 0 {
			what += fmt.Sprintf(" and held by %v", g)
		}
		bad[h.fn] = append(bad[h.fn], fmt.Sprintf("%s %s at %s", h.what, what, c.pos(h.pos)))
	}
	n := 0
	for _, f := range c.prog.all {
		if a.todo[ptKey{false, f, 0}] {
			c.funcs[f] = true
			c.ob("share", "function "+f.RelString(c.prog.Thrift.Pkg), len(bad[f]) == 0, "%v", first(bad[f], fmt.Sprintf("%d instructions, none writes to what others may use", instrs(f))))
			delete(bad, f)
			n += instrs(f)
		}
	}
	for f, m := range bad {
		c.ob("share", "function "+f.RelString(c.prog.Thrift.Pkg), false, "%v", m)
	}
	c.sites += n
	var names []string
	for m, x := range c.prog.Thrift.Members {
		if _, ok := x.(*ssa.Global); ok && m != "init$guard" {
			names = append(names, m)
		}
	}
	sort.Strings(names)
	for _, m := range names {
		g := c.prog.Thrift.Members[m].(*ssa.Global)
		hit := ""
		for _, h := range hs {
			if h.o.glob == g {
				hit = fmt.Sprintf("%s %s it at %s", h.fn, h.what, c.pos(h.pos))
			}
		}
		c.ob("share", "variable "+m, hit == "", "%v", first([]string{hit}[:b2i(hit != "")], "of type "+types.TypeString(g.Type(), nil)+", only set while the package is initialised"))
	}
	c.extra["points_to_rounds"] = a.iters
	c.extra["objects"] = len(a.list)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func first(s []string, or string) any {
	if len(s) > 0 {
		return s
	}
	return or
}

func instrs(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

// holders are the variables an object can be reached from.
func (a *pta) holders(o *ptObj) []string {
	var r []string
	for _, g := range a.list {
		if g.glob == nil {
			continue
		}
		seen := map[*ptObj]bool{g: true}
		work := []*ptObj{g}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			for l := range a.load(ptLoc{x, -1}) {
				if !seen[l.o] {
					seen[l.o] = true
					work = append(work, l.o)
				}
			}
		}
		if seen[o] {
			r = append(r, g.glob.Name())
		}
	}
	sort.Strings(r)
	return r
}

func init() {
	checks["C30"] = &check{run: runC30, min: 40,
		rule: "no byte slice given to a method ends up stored in anything that outlives the call, sent to or used by another goroutine, and none that is not to be filled is written to or appended to in place; no byte slice a read call returns is still held by anything of the library",
		expl: "The points-to analysis of C29 with one object for every byte slice that code outside the library passes to an exported method, and one for each type of receiver: what is stored where, written, sent and returned.",
		asm:  []string{"Write methods of the standard library copy what they keep; bytes.NewBuffer and NewReader keep their slice; Bytes, Next, Peek, ReadSlice and ReadLine hand out what the reader keeps", "the transport a protocol writes to does not keep the slice either, as io.Writer requires"},
	}
}

func runC30(c *Ctx) {
	a := runPTA(c.prog)
	if a.iters > 60 {
		c.undecided("slices", "points-to analysis", "no fixpoint after %d rounds", a.iters)
		return
	}
	for k := range a.todo {
		if f, ok := k.v.(*ssa.Function); ok && !k.init && c.prog.Owned(f) {
			c.funcs[f] = true
			c.sites += instrs(f)
		}
	}
	// what is held by what outlives calls
	held := map[*ptObj]*ptObj{}
	for l := range a.esc {
		for x := range a.load(ptLoc{l.o, -1}) {
			held[x.o] = l.o
		}
	}
	for _, o := range a.params {
		name := o.owner.RelString(c.prog.Thrift.Pkg)
		bad := ""
		for _, h := range a.keeps {
			if h.o == o {
				bad += fmt.Sprintf("%s at %s; ", h.what, c.pos(h.pos))
			}
		}
		if h := held[o]; h != nil && bad == "" {
			bad = fmt.Sprintf("%v, made at %s, holds it", h, c.pos(h.at))
		}
		c.ob("slices", "given to "+name+" is not kept", bad == "", "%v", first([]string{bad}[:b2i(bad != "")], "reaches nothing that outlives the call"))
		if fills(o.owner) {
			continue
		}
		bad = ""
		for _, h := range a.given {
			if h.o == o {
				bad += fmt.Sprintf("%s %s it at %s; ", h.fn.RelString(c.prog.Thrift.Pkg), h.what, c.pos(h.pos))
			}
		}
		c.ob("slices", "given to "+name+" is not changed", bad == "", "%v", first([]string{bad}[:b2i(bad != "")], "nothing writes to it"))
	}
	for _, f := range a.roots {
		if r := f.Signature.Recv(); r == nil || !token.IsExported(f.Name()) || !fills(f) && f.Name()[0] != 'P' || !publicType(r.Type()) {
			continue
		}
		for k := 0; k < f.Signature.Results().Len(); k++ {
			if !isByteSlice(f.Signature.Results().At(k).Type()) {
				continue
			}
			bad := ""
			for l := range a.nodes[ptKey{false, f, k + 1}] {
				if l.o.glob != nil || l.o.initC {
					bad += "it may be memory shared by all; "
				} else if h := held[l.o]; h != nil {
					bad += fmt.Sprintf("what is made at %s is kept by %v; ", c.pos(l.o.at), h)
				}
			}
			c.ob("slices", "returned by "+f.RelString(c.prog.Thrift.Pkg)+" is not kept", bad == "", "%v", first([]string{bad}[:b2i(bad != "")], "nothing else holds it"))
		}
	}
}

func publicType(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Exported()
}
