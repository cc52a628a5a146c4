package main

// Helpers shared by the checks that analyse plain functions and methods.

import (
	"fmt"
	"go/types"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

type lab struct {
	c    *Ctx
	in   *Interp
	rule string
}

func (c *Ctx) newLab(rule string, cfg Config) *lab {
	l := &lab{c: c, rule: rule}
	cfg.NoMerge = true
	l.in = newInterp(c.prog, cfg)
	return l
}

// run interprets a function; nil when it cannot be decided.
func (l *lab) run(key string, f *ssa.Function, st *State, args ...*Val) []Outcome {
	if !l.c.need(key, f != nil && len(f.Blocks) > 0) {
		return nil
	}
	if len(f.Params) != len(args) {
		l.c.need(fmt.Sprintf("%s with %d parameters", key, len(args)), false)
		return nil
	}
	for i, a := range args {
		if t := f.Params[i].Type(); !types.Identical(a.typ, t) {
			if isIface(t) && !isIface(a.typ) {
				args[i] = mk(OIface, t, "", a)
			} else if isIface(t) && a.op == OIface {
				args[i] = mk(OIface, t, "", a.args[0])
			} else {
				args[i] = retype(a, t)
			}
		}
	}
	if os.Getenv("VTIME") != "" {
		t := time.Now()
		fmt.Println("run", key)
		defer func() { fmt.Println("  ", time.Since(t), l.in.steps, l.in.forks) }()
	}
	outs := l.in.Call(f, args, st.clone())
	if l.in.err != nil {
		l.c.undecided(l.rule, key, "%v", l.in.err)
		l.in.err = nil
		return nil
	}
	if len(outs) == 0 {
		l.c.undecided(l.rule, key, "no outcome")
	}
	l.c.paths += len(outs)
	l.c.cover(l.in)
	l.in.steps, l.in.forks = 0, 0
	return outs
}

func (l *lab) fn(name string, st *State, args ...*Val) []Outcome {
	return l.run(name, l.c.prog.Func(name), st, args...)
}

// meth calls a method on a value whose dynamic type is known.
func (l *lab) meth(st *State, recv *Val, name string, args ...*Val) []Outcome {
	r := st.facts.simp(recv)
	for r.op == OIface {
		r = r.args[0]
	}
	f := l.c.prog.MethodByName(r.typ, name)
	return l.run(types.TypeString(r.typ, qual)+"."+name, f, st, append([]*Val{r}, args...)...)
}

// one calls and expects a single returning outcome.
func (l *lab) one(key string, outs []Outcome) (Outcome, bool) {
	if len(outs) != 1 || outs[0].kind != XReturn {
		why := ""
		if len(outs) > 0 {
			why = l.c.descOutcome(outs[0])
		}
		l.c.undecided(l.rule, key, "%d outcomes where one is expected: %s", len(outs), why)
		return Outcome{}, false
	}
	return outs[0], true
}

func unwrap(v *Val) *Val {
	for v != nil && (v.op == OIface || v.op == OAssert || v.op == OConv && v.aux == "ct") && len(v.args) > 0 {
		v = v.args[0]
	}
	return v
}

// mentions: the term contains sub.
func mentions(v, sub *Val) bool {
	if v == nil {
		return false
	}
	seen := map[*Val]bool{}
	var walk func(x *Val) bool
	walk = func(x *Val) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == sub {
			return true
		}
		seen[x] = true
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		if x.op == OLin {
			for _, t := range x.obj.(linForm).terms {
				if walk(t.v) {
					return true
				}
			}
		}
		if x.op == OBits {
			for _, b := range toBits(x) {
				if bitMentions(b, walk) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

func bitMentions(b *Bit, walk func(*Val) bool) bool {
	if b.k == 2 {
		return walk(b.v)
	}
	for _, a := range b.a {
		if bitMentions(a, walk) {
			return true
		}
	}
	return false
}
