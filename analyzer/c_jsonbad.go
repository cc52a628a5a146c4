package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C20"] = &check{run: runC20, min: 300,
		rule: "text that is not what the writers produce is reported: cut short anywhere, with any structural character replaced, a value of the wrong kind, an unfinished word, a malformed number, string or base64 text, an integer out of range, a negative size or another protocol version, the read calls of a JSON protocol neither panic nor all succeed",
		expl: "Abstract interpretation of the Read methods of both JSON protocols over the texts of C19 with one thing wrong: the end of the input at every position of every document, and at every structural character and value an arbitrary other byte or an invalid form. On every path the call that meets the fault, or a later one, must return an error (or say that the fields have ended where a field was expected); no path may panic.",
		asm:  []string{"json.Unmarshal of a string, strconv, encoding/base64 and bufio.Reader behave as documented", "calls are made in protocol order"},
	}
}

// jtok is a token of the text of a document.
type jtok struct {
	from, to int
	step     int
	part     jpart
	num      bool // it follows a number that is not quoted
}

func (w *wire) layout(d *jdoc, sty jstyle) (*jtext, []jtok) {
	t := &jtext{w: w, sty: sty, env: map[*Val]*Val{}, alt: map[*Val]*Val{}}
	var toks []jtok
	k, num := -1, false
	for _, s := range d.steps {
		if s.rm != "" {
			k++
		}
		for _, p := range s.parts {
			t.lit(sty.ws)
			from := len(t.vs)
			q := t.sty
			t.sty.ws = ""
			t.part(p)
			t.sty = q
			toks = append(toks, jtok{from, len(t.vs), k, p, num})
			num = (p.kind == 'i' || p.kind == 'd') && !p.key
		}
	}
	return t, toks
}

// jrun is the reading of a valid document: the states before each read call.
type jrun struct {
	w      *wire
	ps     *protoState
	d      *jdoc
	t      *jtext
	toks   []jtok
	states [][]*State
}

func (w *wire) goodRun(key string, ps *protoState, d *jdoc, sty jstyle) *jrun {
	c := w.c
	r := &jrun{w: w, ps: ps, d: d}
	r.t, r.toks = w.layout(d, sty)
	st := ps.st.clone()
	st.trace = nil
	for _, f := range r.t.init {
		f(st.facts)
	}
	rk, _ := jsonRest(st)
	if rk == nil {
		c.undecided(w.rule, key, "no reader over the transport")
		return nil
	}
	st.heap[rk] = mkSeq(types.NewSlice(tByte), r.t.vs, r.t.ks)
	st.ext["eof"] = 1
	cur := []*State{st}
	for _, s := range d.steps {
		if s.rm == "" {
			continue
		}
		r.states = append(r.states, cur)
		var next []*State
		for _, st := range cur {
			for _, o := range w.call(ps, st, s.rm) {
				if o.kind == XReturn && errState(o.st, o.rets[len(o.rets)-1]) < 0 {
					o.st.trace = nil
					next = append(next, o.st)
				}
			}
		}
		if len(next) == 0 || len(next) > 100 {
			c.undecided(w.rule, key, "%s does not succeed on valid data", s.rm)
			return nil
		}
		cur = next
	}
	return r
}

// reject gives the document with a fault at call `from` and the end of the
// input after it. The call before (which may look ahead), that call or a later
// one has to notice.
func (r *jrun) reject(key string, vs []*Val, ks []byte, from int, init ...func(f *Facts) bool) {
	w, d := r.w, r.d
	c := w.c
	text := mkSeq(types.NewSlice(tByte), vs, ks)
	start := from - 1
	if start < 0 {
		start = 0
	}
	if start >= len(r.states) {
		return
	}
	var cur []*State
	for _, st := range r.states[start] {
		st = st.clone()
		ok := true
		for _, f := range init {
			ok = ok && f(st.facts)
		}
		rk, rest := jsonRest(st)
		used := len(r.t.vs) - len(rest.args)
		if !ok || used > len(vs) {
			continue
		}
		st.heap[rk] = mkSeq(types.NewSlice(tByte), vs[used:], ks[used:])
		st.ext["peek"] = 0
		cur = append(cur, st)
	}
	if len(cur) == 0 {
		return
	}
	k := -1
	for _, s := range d.steps {
		if s.rm == "" {
			continue
		}
		if k++; k < start {
			continue
		}
		var next []*State
		for _, st := range cur {
			for _, o := range w.call(r.ps, st, s.rm) {
				if o.kind != XReturn {
					c.ob(w.rule, key, false, "%s reading %v: %s", s.rm, text, c.descOutcome(o))
					continue
				}
				switch errState(o.st, o.rets[len(o.rets)-1]) {
				case 0:
					c.ob(w.rule, key, false, "cannot tell whether %s reports an error reading %v: %s", s.rm, text, c.descOutcome(o))
					continue
				case 1:
					c.ob(w.rule, key, true, "reports")
					continue
				}
				// the end of the fields where there should be a field, or a field instead of the end
				if s.rm == "ReadFieldBegin" && len(s.rets) > 1 && o.st.facts.eval(mkEq(o.rets[1], s.rets[1])) < 0 {
					c.ob(w.rule, key, true, "notices")
					continue
				}
				o.st.trace = nil
				next = append(next, o.st)
			}
		}
		cur = next
		if len(cur) > 3000 {
			c.undecided(w.rule, key, "too many paths")
			return
		}
	}
	for _, st := range cur {
		l := st.log
		if len(l) > 10 {
			l = l[len(l)-10:]
		}
		c.ob(w.rule, key, false, "every call succeeds on %v when %s", text, strings.Join(l, ", "))
	}
}

func splice(vs []*Val, ks []byte, from, to int, ins []*Val) ([]*Val, []byte) {
	rv := append(append(append([]*Val(nil), vs[:from]...), ins...), vs[to:]...)
	rk := append(append(append([]byte(nil), ks[:from]...), []byte(strings.Repeat("e", len(ins)))...), ks[to:]...)
	return rv, rk
}

func litBytes(s string) []*Val {
	var r []*Val
	for i := 0; i < len(s); i++ {
		r = append(r, mkIntT(tByte, int64(s[i])))
	}
	return r
}

// otherByte is any byte that is none of those listed.
func otherByte(not string) (*Val, func(f *Facts) bool) {
	v := atom(tByte, "wrong")
	return v, func(f *Facts) bool {
		for i := 0; i < len(not); i++ {
			if !f.assume(mkEq(v, mkIntT(tByte, int64(not[i]))), false) {
				return false
			}
		}
		return true
	}
}

const jspace = " \t\r\n"

func runC20(c *Ctx) {
	for _, k := range jsonCtors {
		w, ps := c.newJSON("json text rejected", k.name)
		if ps == nil {
			continue
		}
		w.noFail = true
		short := k.name[4:]
		for _, p := range c.jplaces() {
			// cut short anywhere, any structural character replaced
			for _, op := range []string{"struct", "map", "list", "set"} {
				key := fmt.Sprintf("%s %s in %s", short, op, p.name)
				d := p.after(p.before(newDoc(k.full)).op(c, op))
				r := w.goodRun(key, ps, d, jstyles[1])
				if r == nil {
					continue
				}
				for i := 0; i < len(r.t.vs); i++ {
					at := 0
					for _, x := range r.toks {
						if x.from < i {
							at = x.step
						}
					}
					r.reject(key+", cut short", r.t.vs[:i], r.t.ks[:i], at)
				}
				for _, x := range r.toks {
					if x.part.kind == 'l' && len(x.part.lit) == 1 {
						b, f := otherByte(jspace + x.part.lit)
						vs, ks := splice(r.t.vs, r.t.ks, x.from, x.to, []*Val{b})
						r.reject(key+", a structural character replaced", vs, ks, x.step, f)
					}
					for _, b := range []byte(",:") {
						vs, ks := splice(r.t.vs, r.t.ks, x.from, x.from, []*Val{mkIntT(tByte, int64(b))})
						r.reject(key+", an extra "+string(rune(b)), vs, ks, x.step)
					}
				}
			}
			// values of the wrong kind
			for _, op := range scalarOps {
				key := fmt.Sprintf("%s %s in %s", short, op, p.name)
				d := p.after(p.before(newDoc(k.full)).op(c, op))
				r := w.goodRun(key, ps, d, jstyles[4])
				if r == nil {
					continue
				}
				rstep := -1
				for i := 0; i <= len(p.before(newDoc(k.full)).steps); i++ {
					if d.steps[i].rm != "" {
						rstep++
					}
				}
				for _, x := range r.toks {
					if x.step != rstep || x.part.kind == 'l' && len(x.part.lit) == 1 {
						continue
					}
					cl := map[string]string{"bool-true": "bool", "bool-false": "bool", "string": "str", "binary": "str"}[op]
					if cl == "" {
						cl = "number"
					}
					first := map[string]string{"bool": "tfn", "number": "0123456789+-.eEn\"NI", "str": "n\""}
					b, f := otherByte(jspace + first[cl])
					vs, ks := splice(r.t.vs, r.t.ks, x.from, x.to, []*Val{b, b})
					r.reject(key+", another kind of value", vs, ks, x.step, f)
					words := map[string][]string{
						"bool":   {"trux", "truE", "fals", "falsy", "nul", "1", `"true"`},
						"number": {"-", "1-2", "1e", "1.2.3", "1e2e3", "1.-5", "1e5-3", "1e.5", "e5", "--1", "nul", "nulx", "Inf", "NaX", `"Infinitx"`, `"1x"`, "1ex", `""`, "true", `"12`, `1"2"`, `"NaN`, `"NaNx"`, `"-Infinity`},
						"str":    {"nul", "nulx", "abc", "12", "true", "'a'"},
					}[cl]
					if cl == "number" && op != "double" {
						words = append(words, "1.5", "1e2", "99999999999999999999", "-99999999999999999999", "NaN", `"Infinity"`)
					}
					if p.name != "top level" {
						words = append(words, `"1"2`, "nulls", "truetrue", `"a"b`)
					}
					words = append(words, map[string][]string{"byte": {"256", "-129"}, "i16": {"32768", "-32769", "65536"}, "i32": {"2147483648", "-2147483649", "4294967296"}}[op]...)
					switch op {
					case "double":
						words = append(words, "1e999")
					case "binary":
						words = append(words, `"a"`, `"ab=c"`, `"!!!!"`)
					case "string":
						words = append(words, `"\x"`, `"\u12"`, "\"a\nb\"")
					}
					for _, s := range words {
						vs, ks := splice(r.t.vs, r.t.ks, x.from, x.to, litBytes(s))
						r.reject(key+", malformed value", vs, ks, x.step)
					}
				}
			}
		}
		// sizes and version
		for _, p := range c.jplaces()[:3] {
			for _, op := range []string{"list", "set", "map"} {
				key := fmt.Sprintf("%s %s in %s", short, op, p.name)
				d := p.after(p.before(newDoc(k.full)).op(c, op))
				r := w.goodRun(key, ps, d, jstyles[0])
				if r == nil {
					continue
				}
				for _, x := range r.toks {
					if x.part.kind == 'i' && x.part.v.op != OConst && strings.HasPrefix(peel(x.part.v).aux, "size") {
						t := &jtext{w: w, n: 100}
						t.digits("-Ddd")
						vs, ks := splice(r.t.vs, r.t.ks, x.from, x.to, t.vs)
						cut := *r
						cut.d = &jdoc{steps: upToRead(d, x.step)}
						cut.reject(key+", negative size", vs, ks, x.step, t.init...)
					}
				}
			}
		}
		if k.full {
			key := short + " another version"
			r := w.goodRun(key, ps, newDoc(true).message(c), jstyles[0])
			if r == nil {
				continue
			}
			x := r.toks[1]
			b := atom(tByte, "version")
			vs, ks := splice(r.t.vs, r.t.ks, x.from, x.to, []*Val{b})
			r.reject(key, vs, ks, 0, func(f *Facts) bool { f.refine(b, Range{bigInt('2'), bigInt('9')}); return true })
			for _, v := range []string{"0", "11", "-1", "4294967297"} {
				vs, ks = splice(r.t.vs, r.t.ks, x.from, x.to, litBytes(v))
				r.reject(key, vs, ks, 0)
			}
		}
	}
}

// upToRead is the document as far as read call k.
func upToRead(d *jdoc, k int) []jstep {
	n := -1
	for i, s := range d.steps {
		if s.rm != "" {
			n++
		}
		if n == k {
			return d.steps[:i+1]
		}
	}
	return d.steps
}
