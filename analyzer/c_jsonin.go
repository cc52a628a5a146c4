package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"
)

func init() {
	checks["C19"] = &check{run: runC19, min: 150,
		rule: "every read call of both JSON protocols takes exactly its piece of the text and returns the value the text denotes, whatever the white space between tokens and however the text arrives, without asking the transport for more than the item needs",
		expl: "Abstract interpretation of the Read methods of TSimpleJSONProtocol and TJSONProtocol over the call sequences of the writers: every operation in every kind of place, each with texts of symbolic digits, characters, escapes and white space. The buffered reader is modelled as a sequence term; how much of it is buffered beyond what was looked at is unknown, and asking for a byte beyond the item is a violation.",
		asm:  []string{"json.Unmarshal of a string, strconv, encoding/base64 and bufio.Reader behave as documented", "calls are made in protocol order", "integers are within the range of the type read"},
	}
}

// jstyle says in which form values are written.
type jstyle struct {
	name string
	ws   string // before every token
	num  int    // form of integers
	str  int    // form of strings
	dbl  int    // form of doubles
}

var jstyles = []jstyle{
	{"plain", "", 0, 0, 0},
	{"spaced", " ", 1, 1, 1},
	{"lines", "\n\t", 2, 2, 2},
	{"extreme", "\r", 3, 3, 3},
	{"least", "", 4, 4, 4},
	{"zero", " \n", 5, 5, 5},
}

// text of one document with the values it denotes
type jtext struct {
	w    *wire
	sty  jstyle
	vs   []*Val
	ks   []byte
	env  map[*Val]*Val
	alt  map[*Val]*Val
	init []func(f *Facts) bool
	n    int
}

func (t *jtext) lit(s string) {
	for i := 0; i < len(s); i++ {
		t.vs = append(t.vs, mkIntT(tByte, int64(s[i])))
		t.ks = append(t.ks, 'e')
	}
}

func (t *jtext) byteIn(lo, hi int64) *Val {
	t.n++
	v := atom(tByte, fmt.Sprintf("t%d", t.n))
	t.init = append(t.init, func(f *Facts) bool { f.refine(v, Range{big.NewInt(lo), big.NewInt(hi)}); return true })
	t.vs = append(t.vs, v)
	t.ks = append(t.ks, 'e')
	return v
}

// char is any byte of a string that stands for itself.
func (t *jtext) char() *Val {
	v := t.byteIn(0x20, 0x7e)
	t.init = append(t.init, func(f *Facts) bool {
		return f.assume(mkEq(v, mkIntT(tByte, '"')), false) && f.assume(mkEq(v, mkIntT(tByte, '\\')), false)
	})
	return v
}

// run is any number of such bytes.
func (t *jtext) run(kind string) {
	t.n++
	n := atom(tInt, fmt.Sprintf("tl%d", t.n))
	t.init = append(t.init, func(f *Facts) bool { f.refine(n, Range{big.NewInt(1), big.NewInt(1 << 31)}); return true })
	t.vs = append(t.vs, seqAtom(types.NewSlice(tByte), fmt.Sprintf("%s:%d", kind, t.n), n))
	t.ks = append(t.ks, 's')
}

func (t *jtext) since(i int) *Val {
	return mkSeq(types.NewSlice(tByte), t.vs[i:], t.ks[i:])
}

// digits writes a pattern: 'd' any digit, 'D' any digit but zero, other bytes themselves,
// "[ab" a digit from a to b.
func (t *jtext) digits(p string) *Val {
	i := len(t.vs)
	for k := 0; k < len(p); k++ {
		switch p[k] {
		case 'd':
			t.byteIn('0', '9')
		case 'D':
			t.byteIn('1', '9')
		case '[':
			t.byteIn(int64(p[k+1]), int64(p[k+2]))
			k += 2
		default:
			t.lit(p[k : k+1])
		}
	}
	return t.since(i)
}

func (t *jtext) integer(v *Val) {
	if n, ok := v.intConst(); ok {
		t.lit(n.String())
		return
	}
	kind := "i64"
	switch peel(v).typ.Underlying().(*types.Basic).Kind() {
	case types.Uint8:
		kind = "byte"
	case types.Int16:
		kind = "i16"
	case types.Int32:
		kind = "i32"
	}
	size := strings.HasPrefix(peel(v).aux, "size")
	pat := map[string][]string{
		"byte": {"d", "Dd", "1dd", "255", "127", "0"},
		"i16":  {"d", "-Dd", "32[06dd", "32767", "-32768", "0"},
		"i32":  {"d", "-Dd", "21[03ddddddd", "2147483647", "-2147483648", "0"},
		"i64":  {"d", "-Dd", "921[01ddddddddddddddd", "9223372036854775807", "-9223372036854775808", "0"},
	}[kind][t.sty.num]
	if size {
		pat = strings.TrimPrefix(pat, "-")
		if pat == "2147483648" {
			pat = "2147483647"
		}
	}
	s := t.digits(pat)
	if c, ok := constText(s); ok {
		b := new(big.Int)
		b.SetString(c, 10)
		t.env[v] = mkBig(v.typ, b)
		return
	}
	neg := pat[0] == '-'
	d := s.args
	if neg {
		d = d[1:]
	}
	n := digitsValue(d, neg, types.Typ[types.Int64])
	t.env[v] = convert(n, v.typ)
	t.alt[v] = convert(convert(n, peel(v).typ), v.typ) // the same: the digits span no more than the type
}

func (t *jtext) str(v *Val) {
	i := len(t.vs)
	t.lit(`"`)
	if s, ok := v.strConst(); ok {
		t.lit(s + `"`)
		return
	}
	plain := true
	switch t.sty.str {
	case 0:
		t.run("plain")
		t.char()
	case 1:
		plain = false
		t.char()
		t.lit(`\"`)
		t.char()
	case 2:
		plain = false
		t.char()
		t.lit(strings.Repeat(`\\`, 6))
	case 3:
		plain = false
		t.lit(strings.Repeat(`\\`, 9) + `\"` + `\"\\\"` + strings.Repeat(`\\`, 5) + `\"` + strings.Repeat(`\\`, 4))
	case 4:
		t.char()
		t.char()
	case 5:
	}
	in := t.since(i + 1)
	t.lit(`"`)
	text := t.since(i)
	t.w.validStr[text] = true
	if plain {
		t.w.plainStr[text] = in
		t.env[v] = mk(OConv, tString, "", in)
		if len(in.args) == 0 {
			t.env[v] = mkStr("")
		}
		return
	}
	t.env[v] = mk(OCall, tString, "unquoted", text)
}

func (t *jtext) part(p jpart) {
	t.lit(t.sty.ws)
	quote := func() {
		if p.key {
			t.lit(`"`)
		}
	}
	switch p.kind {
	case 'l':
		quote()
		t.lit(p.lit)
		quote()
	case 'i':
		quote()
		t.integer(p.v)
		quote()
	case 'q':
		t.str(p.v)
	case 'b':
		t.lit(`"`)
		if t.sty.str == 5 {
			t.env[p.v] = mkSeq(types.NewSlice(tByte), nil, nil)
		} else {
			t.run("base64")
			t.env[p.v] = unbase64(t.since(len(t.vs) - 1))
		}
		t.lit(`"`)
	case 'd':
		f64 := types.Typ[types.Float64]
		word := []string{"", "", "", "NaN", "Infinity", "-Infinity"}[t.sty.dbl]
		if word != "" {
			t.lit(`"` + word + `"`)
			t.env[p.v] = mk(OCall, f64, "parsefloat", mkStr(word))
			return
		}
		quote()
		s := t.digits([]string{"d", "-Dd.dd", "D.de-d"}[t.sty.dbl])
		quote()
		t.env[p.v] = mk(OCall, f64, "parsefloat", s)
	}
}

// readDoc decides the read calls of one document.
func (w *wire) readDoc(key string, ps *protoState, d *jdoc, sty jstyle) {
	c := w.c
	if os.Getenv("VTIME") != "" {
		t0, p0 := time.Now(), c.paths
		defer func() {
			fmt.Fprintf(os.Stderr, "%v %s paths %d\n", time.Since(t0).Round(time.Millisecond), key, c.paths-p0)
		}()
	}
	t := &jtext{w: w, sty: sty, env: map[*Val]*Val{}, alt: map[*Val]*Val{}}
	var steps []jstep
	var upto []int
	for _, s := range d.steps {
		for _, p := range s.parts {
			t.part(p)
		}
		if s.rm != "" {
			steps = append(steps, s)
			upto = append(upto, len(t.vs))
		} else if len(upto) > 0 {
			upto[len(upto)-1] = len(t.vs)
		}
	}
	st := ps.st.clone()
	st.trace = nil
	for _, f := range t.init {
		if !f(st.facts) {
			c.undecided(w.rule, key, "inconsistent text")
			return
		}
	}
	isWs := func(v *Val) bool { n, ok := v.i64(); return ok && strings.ContainsRune(" \t\r\n", rune(n)) }
	cur := []*State{st}
	given := 0
	for k, s := range steps {
		goal, eof := upto[k], 0
		switch {
		case s.look && goal < len(t.vs):
			goal++
		case s.look:
			eof = 1
		case s.peek:
			for goal < len(t.vs) && isWs(t.vs[goal]) {
				goal++
			}
			goal++
		}
		if goal < given {
			goal = given
		}
		var next []*State
		for _, st := range cur {
			rk, rest := jsonRest(st)
			if rk == nil {
				c.undecided(w.rule, key, "no reader over the transport")
				return
			}
			x := mkSeq(types.NewSlice(tByte), append([]*Val{rest}, t.vs[given:goal]...), append([]byte{'s'}, t.ks[given:goal]...))
			st.heap[rk] = x
			st.ext["eof"] = eof
			for _, o := range w.call(ps, st, s.rm) {
				if o.kind != XReturn {
					c.ob(w.rule, key, false, "%s reading %v: %s", s.rm, x, c.descOutcome(o))
					continue
				}
				f := o.st.facts
				switch errState(o.st, o.rets[len(o.rets)-1]) {
				case 0:
					c.ob(w.rule, key, false, "cannot tell whether %s reports an error reading %v: %s", s.rm, x, c.descOutcome(o))
					continue
				case 1:
					c.ob(w.rule, key, false, "%s reports an error on valid text %v: %s", s.rm, x, c.descOutcome(o))
					continue
				}
				good := true
				for i, v := range s.rets {
					if v == nil {
						continue
					}
					alt := t.alt[v]
					if e := t.env[v]; e != nil {
						v = e
					}
					got := o.rets[i]
					same := false
					switch {
					case isSlice(got.typ) || isString(got.typ):
						p, q := f.simp(w.seqOf(o.st, got)), f.simp(w.seqOf(o.st, v))
						same = p == q
						got, v = p, q
					case isFloat(got.typ):
						same = sameFloat(f, got, v)
					default:
						same = sameVal(f, got, v) || alt != nil && sameVal(f, got, alt)
					}
					if !c.ob(w.rule, key, same, "%s reading %v: result %d is %v, the text says %v; %s", s.rm, x, i, f.simp(got), f.simp(v), c.descOutcome(o)) {
						good = false
					}
				}
				if good {
					o.st.trace = nil
					o.st.log = nil
					next = append(next, o.st)
				}
			}
		}
		given = goal
		cur = next
		if len(cur) > 2000 {
			c.undecided(w.rule, key, "too many paths")
			return
		}
	}
	for _, st := range cur {
		_, rest := jsonRest(st)
		r := st.facts.simp(rest)
		c.ob(w.rule, key, len(r.args) == 0 && r.op == OSeq, "the text %v is left over", r)
	}
}

func sameFloat(f *Facts, a, b *Val) bool {
	if sameVal(f, a, b) {
		return true
	}
	w := ""
	if b.op == OCall && b.aux == "parsefloat" {
		if s, ok := b.args[0].strConst(); ok {
			w = s
		}
	}
	if a.op != OCall {
		return false
	}
	switch w {
	case "NaN":
		return a.aux == "math.NaN"
	case "Infinity", "-Infinity":
		if a.aux == "math.Inf" {
			n, ok := a.args[0].i64()
			return ok && (n >= 0) == (w == "Infinity")
		}
	}
	return false
}

func runC19(c *Ctx) {
	for _, k := range jsonCtors {
		w, ps := c.newJSON("json text read", k.name)
		if ps == nil {
			continue
		}
		w.noFail = true
		for _, p := range c.jplaces() {
			for _, op := range append(append([]string(nil), scalarOps...), compositeOps...) {
				d := p.after(p.before(newDoc(k.full)).op(c, op))
				for _, s := range jstyles {
					w.readDoc(k.name[4:]+" "+op+" in "+p.name+", "+s.name, ps, d, s)
				}
			}
		}
		for _, p := range c.jplaces() {
			for _, op := range nullOps {
				if p.name == "map" {
					continue
				}
				d := p.after(p.before(newDoc(k.full)).null(c, op))
				w.readDoc(k.name[4:]+" null "+op+" in "+p.name, ps, d, jstyles[1])
			}
		}
		for _, k2 := range sortedKeys(c.typeDocs(k.full)) {
			w.readDoc(k.name[4:]+" "+k2, ps, c.typeDocs(k.full)[k2], jstyles[0])
		}
	}
}
func bigInt(n int64) *big.Int { return big.NewInt(n) }
