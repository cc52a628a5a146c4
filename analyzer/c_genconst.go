package main

// What emitted constants and enums are.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

func init() {
	checks["C33"] = &check{run: runC33, min: 1,
		rule: "what the generator emits for constants and enums, interpreted, has the values and names of the IDL program",
		expl: "per type a constant of it: each part of its value; per enum and constant of it: number, text, the constant of that text, Value and IsEnum",
		asm:  []string{"the parse tree classes behave as in Apache Thrift's compiler (their stub is in cppstub)", "programs C31 rejects or whose generation is not followed are notes"}}
}

var emittedConst = regexp.MustCompile(`(?m)^\s*(?:var|const)\s+(\w*SomeValue)\b`)

func (c *Ctx) genConst(g *cprog, t idlType) {
	key := "constant: " + t.name
	pn := fmt.Sprintf("prog%d", len(c.prog.Gen))
	d := newIDL(pn)
	x := t.make(d)
	v := idlDefault(x)
	d.constant("some_value", x, v)
	files, e := d.emit(g)
	if e != nil {
		genSkip(c, key, e)
		return
	}
	pkg, _ := splitGo(files)
	name, call := "", ""
	inits := 0
	for _, f := range sortedNames(pkg) {
		s := pkg[f]
		if m := emittedConst.FindStringSubmatch(s); m != nil {
			name = m[1]
		}
		for strings.Contains(s, "func init() {") { // so that the driver can call them
			s = strings.Replace(s, "func init() {", fmt.Sprintf("func vInit%d() {", inits), 1)
			call += fmt.Sprintf("vInit%d()\n", inits)
			inits++
		}
		pkg[f] = s
	}
	if !c.ob("constants", key, name != "", "no constant is emitted") {
		return
	}
	m := &maker{}
	n := m.build(x, false)
	sp := c.genPkg(pn, key, pkg, "func vConst() (out []interface{}) {\n"+call+n.take(name, false, 0)+"\nreturn\n}\n")
	if sp == nil {
		return
	}
	l := c.collLab("constants")
	want := idlDefaultLeaves(x, v)
	for _, o := range l.run(key, sp.Func("vConst"), l.in.start()) {
		if !l.alive(key, o) {
			return
		}
		c.sameParts(l, "constants", key, o, o.rets[0], want)
	}
}

// sameParts decides that the values of a slice are the ones given.
func (c *Ctx) sameParts(l *lab, rule, key string, o Outcome, v *Val, want []*Val) bool {
	out, ok := l.items(o.st, v)
	if !c.ob(rule, key, ok && len(out) == len(want), "%d parts instead of %d", len(out), len(want)) {
		return false
	}
	for i := range out {
		g := o.st.facts.simp(unwrapAny(out[i]))
		good := false
		if isSlice(g.typ) {
			good = o.st.facts.eval(mkEq(l.in.conv(o.st, g, tString), want[i])) > 0
		} else {
			good = g.typ != nil && types.Identical(g.typ.Underlying(), want[i].typ.Underlying()) && o.st.facts.eval(mkEq(g, want[i])) > 0
		}
		if !c.ob(rule, key, good, "part %d is %v instead of %v", i, g, want[i]) {
			return false
		}
	}
	return true
}

type enumConst struct {
	name string
	n    int64
}

func (c *Ctx) genEnumRun(g *cprog, key, name string, vals ...any) {
	pn := fmt.Sprintf("prog%d", len(c.prog.Gen))
	d := newIDL(pn)
	d.enum(name, vals...)
	files, e := d.emit(g)
	if e != nil {
		genSkip(c, key, e)
		return
	}
	var cs []enumConst
	next := int64(-1)
	first := map[int64]string{}
	for i := 0; i < len(vals); i += 2 {
		next++
		if n, ok := vals[i+1].(int); ok {
			next = int64(n)
		}
		x := enumConst{vals[i].(string), next}
		if first[next] == "" {
			first[next] = x.name
		}
		cs = append(cs, x)
	}
	t := pub(name)
	drv := "func vEnum() (out []interface{}) {\n"
	var want []*Val
	for _, x := range cs {
		k := t + "_" + x.name
		drv += fmt.Sprintf("{ var e %s = %s; out = append(out, int64(e), e.String(), int64(From%sString(%q)), e.Value(), e.IsEnum()) }\n", t, k, t, k)
		want = append(want, mkIntT(types.Typ[types.Int64], x.n), mkStr(t+"_"+first[x.n]), mkIntT(types.Typ[types.Int64], x.n), mkInt(x.n), mkBool(true))
	}
	drv += "return\n}\n"
	drv += "func vOther(n int64) string { return " + t + "(n).String() }\n"
	pkg, _ := splitGo(files)
	sp := c.genPkg(pn, key, pkg, drv)
	if sp == nil {
		return
	}
	l := c.collLab("enums")
	for _, o := range l.run(key, sp.Func("vEnum"), l.in.start()) {
		if !l.alive(key, o) {
			return
		}
		c.sameParts(l, "enums", key, o, o.rets[0], want)
	}
	n := atom(types.Typ[types.Int64], "number")
	for _, o := range l.run(key, sp.Func("vOther"), l.in.start(), n) {
		if !l.alive(key, o) {
			return
		}
		f := o.st.facts
		text := "<UNSET>"
		for v, s := range first {
			if f.eval(mkEq(n, mkIntT(n.typ, v))) > 0 {
				text = t + "_" + s
			}
		}
		c.ob("enums", key+", text of a number", f.eval(mkEq(o.rets[0], mkStr(text))) > 0, "the text is %v instead of %q: %s", f.simp(o.rets[0]), text, c.descOutcome(o))
	}
}

func runC33(c *Ctx) {
	g, err := loadGenerator(c.prog.repo, c.verif)
	if err != nil {
		genUnread(c, err)
		return
	}
	c.ob("anchor", "t_go_generator.cc", true, "")
	for _, t := range idlTypes() {
		c.genConst(g, t)
	}
	c.genEnumRun(g, "enum without numbers", "Colour", "Red", nil, "Green", nil, "BLUE", nil)
	c.genEnumRun(g, "enum with numbers", "colour_of", "Red", 3, "green", 1, "a_b", 70000)
	c.genEnumRun(g, "enum with gaps", "Colour", "Red", -5, "Green", nil, "Blue", 70000, "a_b", 0, "last", nil)
	c.genEnumRun(g, "enum with two names for a value", "Colour", "Red", 1, "Crimson", 1, "Blue", nil)
}
