package main

// Path facts: what the branch conditions taken so far imply.

import (
	"go/types"
	"math/big"
)

type Facts struct {
	truth map[*Val]bool
	rng   map[*Val]Range
	bit   map[*Bit]bool
	eq    map[*Val]*Val       // integer/string/… value known equal to a constant
	dyn   map[*Val]types.Type // dynamic type of an interface value
	ndyn  map[*Val][]types.Type
	isnil map[*Val]bool
}

func newFacts() *Facts {
	return &Facts{map[*Val]bool{}, map[*Val]Range{}, map[*Bit]bool{}, map[*Val]*Val{}, map[*Val]types.Type{}, map[*Val][]types.Type{}, map[*Val]bool{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (f *Facts) clone() *Facts {
	return &Facts{cp(f.truth), cp(f.rng), cp(f.bit), cp(f.eq), cp(f.dyn), cp(f.ndyn), cp(f.isnil)}
}

// meet keeps only the facts common to both.
func (f *Facts) meet(g *Facts) {
	for k, v := range f.truth {
		if w, ok := g.truth[k]; !ok || w != v {
			delete(f.truth, k)
		}
	}
	for k, v := range f.bit {
		if w, ok := g.bit[k]; !ok || w != v {
			delete(f.bit, k)
		}
	}
	for k, v := range f.isnil {
		if w, ok := g.isnil[k]; !ok || w != v {
			delete(f.isnil, k)
		}
	}
	for k, v := range f.eq {
		if w, ok := g.eq[k]; !ok || w != v {
			delete(f.eq, k)
		}
	}
	for k, v := range f.dyn {
		if w, ok := g.dyn[k]; !ok || !types.Identical(w, v) {
			delete(f.dyn, k)
		}
	}
	for k := range f.ndyn {
		if w, ok := g.ndyn[k]; !ok {
			delete(f.ndyn, k)
		} else if len(w) < len(f.ndyn[k]) {
			f.ndyn[k] = w
		}
	}
	for k, v := range f.rng {
		w, ok := g.rng[k]
		if !ok {
			delete(f.rng, k)
			continue
		}
		r := v
		if w.lo.Cmp(r.lo) < 0 {
			r.lo = w.lo
		}
		if w.hi.Cmp(r.hi) > 0 {
			r.hi = w.hi
		}
		f.rng[k] = r
	}
}

func (f *Facts) simpBit(b *Bit) *Bit {
	if v, ok := f.bit[b]; ok {
		if v {
			return I.B1
		}
		return I.B0
	}
	switch b.k {
	case 2:
		// a value known to equal a constant
		if c, ok := f.eq[b.v]; ok {
			return toBits(c)[b.i]
		}
		if b.v.op == OLin {
			if s := f.fixed(b.v); s != b.v {
				return f.simpBit(toBits(s)[b.i])
			}
		} else if r, ok := f.rng[b.v]; ok && r.lo.Cmp(r.hi) == 0 {
			return toBits(mkBig(b.v.typ, r.lo))[b.i]
		}
	case 3:
		return bnot(f.simpBit(b.a[0]))
	case 4, 5, 6:
		r := f.simpBit(b.a[0])
		for _, x := range b.a[1:] {
			s := f.simpBit(x)
			switch b.k {
			case 4:
				r = bxor(r, s)
			case 5:
				r = band(r, s)
			case 6:
				r = bor(r, s)
			}
		}
		return r
	}
	return b
}

// refuted: a recorded negative fact about fewer bits excludes the assignment.
func (f *Facts) refuted(c *Val) bool {
	open := func(l []bitAsg) (map[*Bit]bool, bool) {
		m := map[*Bit]bool{}
		for _, x := range l {
			b := f.simpBit(x.b)
			if b.k <= 1 {
				if (b.k == 1) != x.v {
					return nil, false
				}
				continue
			}
			m[b] = x.v
		}
		return m, true
	}
	var u map[*Bit]bool
	for t, v := range f.truth {
		if v || t.op != OBitEq {
			continue
		}
		if u == nil {
			var ok bool
			if u, ok = open(c.obj.([]bitAsg)); !ok {
				return true
			}
		}
		m, ok := open(t.obj.([]bitAsg))
		if !ok || len(m) > len(u) {
			continue
		}
		in := true
		for b, x := range m {
			if y, ok := u[b]; !ok || y != x {
				in = false
				break
			}
		}
		if in {
			return true
		}
	}
	return false
}

// fixed replaces the summands of a sum that have one possible value.
func (f *Facts) fixed(v *Val) *Val {
	l := v.obj.(linForm)
	r := linForm{c: l.c}
	ch := false
	for _, t := range l.terms {
		x := t.v
		if c, ok := f.eq[x]; ok {
			x, ch = c, true
		} else if q, ok := f.rng[x]; ok && q.lo.Cmp(q.hi) == 0 {
			x, ch = mkBig(x.typ, q.lo), true
		}
		r = linAdd(r, linScale(toLin(x), t.coef), 1)
	}
	if !ch {
		return v
	}
	return fromLin(v.typ, r)
}

// simp rewrites a value under the facts (constants and bits).
func (f *Facts) simp(v *Val) *Val {
	if v == nil {
		return nil
	}
	if c, ok := f.eq[v]; ok {
		return c
	}
	if v.isConst() {
		return v
	}
	if f.isnil[v] {
		return mkNil(v.typ)
	}
	if v.typ != nil && isInt(v.typ) {
		r := rangeOf(v, f)
		if r.lo.Cmp(r.hi) == 0 {
			return mkBig(v.typ, r.lo)
		}
		if v.op == OLin {
			l := v.obj.(linForm)
			ch := false
			r := linForm{c: l.c}
			for _, t := range l.terms {
				s := f.simp(t.v)
				if s != t.v {
					ch = true
				}
				r = linAdd(r, linScale(toLin(s), t.coef), 1)
			}
			if ch {
				return f.simp(fromLin(v.typ, r))
			}
		}
		if len(f.bit) > 0 || len(f.eq) > 0 {
			bs := toBits(v)
			nb := make([]*Bit, len(bs))
			ch := false
			for i, b := range bs {
				nb[i] = f.simpBit(b)
				if nb[i] != b {
					ch = true
				}
			}
			if ch {
				return fromBits(v.typ, nb)
			}
		}
		return v
	}
	switch v.op {
	case OSeq, OTuple, OStruct, OIface:
		ch := false
		args := make([]*Val, len(v.args))
		for i, a := range v.args {
			args[i] = f.simp(a)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			if v.op == OSeq {
				return mkSeq(v.typ, args, []byte(v.aux))
			}
			return mk(v.op, v.typ, v.aux, args...)
		}
	case OAtom:
		if n, ok := v.obj.(*Val); ok && (isSlice(v.typ) || isString(v.typ)) {
			if m := f.simpConst(f.simp(n)); m != n {
				if z, ok := m.i64(); ok && z == 0 && isSlice(v.typ) {
					return mkSeq(v.typ, nil, nil)
				}
				return seqAtom(v.typ, v.aux, m)
			}
		}
	case OSub:
		if x, lo, hi := f.simp(v.args[0]), f.simpConst(f.simp(v.args[1])), f.simpConst(f.simp(v.args[2])); x != v.args[0] || lo != v.args[1] || hi != v.args[2] {
			return seqSub(x, lo, hi)
		}
	case OConcat:
		r := f.simp(v.args[0])
		for _, a := range v.args[1:] {
			r = mkConcat(v.typ, r, f.simp(a))
		}
		return r
	}
	if v.typ != nil && isBool(v.typ) {
		if t := f.eval(v); t != 0 {
			return mkBool(t > 0)
		}
	}
	return v
}

// eval decides a boolean term: +1 true, -1 false, 0 unknown.
func (f *Facts) eval(c *Val) int {
	c = plainVal(c)
	if b, ok := c.boolConst(); ok {
		if b {
			return 1
		}
		return -1
	}
	if t, ok := f.truth[c]; ok {
		if t {
			return 1
		}
		return -1
	}
	switch c.op {
	case ONot:
		return -f.eval(c.args[0])
	case OBoolAnd:
		all := 1
		for _, x := range c.args {
			switch f.eval(x) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	case OBitEq:
		all := 1
		for _, x := range c.obj.([]bitAsg) {
			b := f.simpBit(x.b)
			if b.k > 1 {
				all = 0
				continue
			}
			if (b.k == 1) != x.v {
				return -1
			}
		}
		if all == 0 {
			if v, n, k, ok := lowConst(c); ok {
				lim := new(big.Int).Lsh(big.NewInt(1), uint(n))
				if r := rangeOf(v, f); r.lo.Sign() >= 0 && r.hi.Cmp(lim) < 0 {
					if k.Cmp(r.lo) < 0 || k.Cmp(r.hi) > 0 {
						return -1
					}
					if r.lo.Cmp(r.hi) == 0 {
						return 1
					}
				}
			}
			// an interval may decide "high bits zero" of an unsigned value
			if v, n, ok := highZero(c); ok {
				r := rangeOf(v, f)
				lim := new(big.Int).Lsh(big.NewInt(1), uint(n))
				if r.lo.Sign() >= 0 && r.hi.Cmp(lim) < 0 {
					return 1
				}
				if r.lo.Cmp(lim) >= 0 {
					return -1
				}
			}
			if l := c.obj.([]bitAsg); len(l) == 1 && l[0].b.k == 2 && l[0].b.i == width(l[0].b.v.typ)-1 && !isUnsigned(l[0].b.v.typ) {
				r := rangeOf(l[0].b.v, f)
				if r.hi.Sign() < 0 {
					if l[0].v {
						return 1
					}
					return -1
				}
				if r.lo.Sign() >= 0 {
					if l[0].v {
						return -1
					}
					return 1
				}
			}
			if f.refuted(c) {
				return -1
			}
		}
		return all
	case OLt:
		a, b := c.args[0], c.args[1]
		if isInt(a.typ) {
			ra, rb := rangeOf(a, f), rangeOf(b, f)
			if ra.hi.Cmp(rb.lo) < 0 {
				return 1
			}
			if ra.lo.Cmp(rb.hi) >= 0 {
				return -1
			}
			if z, ok := b.i64(); ok && z == 1 && ra.lo.Sign() >= 0 && !a.isConst() {
				if q := mkEq(a, mkBig(a.typ, big.NewInt(0))); q != c && q.op == OBitEq {
					if t := f.eval(q); t != 0 {
						return t
					}
				}
			}
			if f.truth[mkEq(a, b)] {
				return -1
			}
			if t, ok := f.truth[mk(OLt, tBool, "", b, a)]; ok && t {
				return -1
			}
			if t, ok := f.truth[mk(OLt, tBool, "", b, a)]; ok && !t {
				if e, ok := f.truth[mkEq(a, b)]; ok && !e {
					return 1
				}
			}
		}
		if isString(a.typ) {
			if t, ok := f.truth[mk(OLt, tBool, "", b, a)]; ok && !t {
				if e, ok := f.truth[mkEq(a, b)]; ok && !e {
					return 1
				}
			}
			if t, ok := f.truth[mk(OLt, tBool, "", b, a)]; ok && t {
				return -1
			}
			if f.truth[mkEq(a, b)] {
				return -1
			}
			if c1, ok := f.eq[a]; ok {
				a = c1
			}
			if c1, ok := f.eq[b]; ok {
				b = c1
			}
			if s, ok := a.strConst(); ok {
				if t, ok := b.strConst(); ok {
					if s < t {
						return 1
					}
					return -1
				}
			}
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if isBool(a.typ) && isBool(b.typ) {
			if x, y := f.eval(a), f.eval(b); x != 0 && y != 0 {
				if x == y {
					return 1
				}
				return -1
			}
		}
		if b.isNil() {
			if n, ok := f.isnil[a]; ok {
				if n {
					return 1
				}
				return -1
			}
			if _, ok := f.dyn[a]; ok {
				return -1
			}
			return 0
		}
		sa, sb := a, b
		if k, ok := f.eq[a]; ok {
			sa = k
		}
		if k, ok := f.eq[b]; ok {
			sb = k
		}
		if sa != a || sb != b {
			return f.eval(mkEq(sa, sb))
		}
		if isInt(a.typ) && isInt(b.typ) {
			ra, rb := rangeOf(a, f), rangeOf(b, f)
			if ra.hi.Cmp(rb.lo) < 0 || rb.hi.Cmp(ra.lo) < 0 {
				return -1
			}
			if ra.lo.Cmp(ra.hi) == 0 && rb.lo.Cmp(rb.hi) == 0 {
				return 1
			}
			if a.op == OLin {
				// difference form: x - y == k ; use order facts
				if l := a.obj.(linForm); len(l.terms) == 2 && l.c.Sign() == 0 {
					if z, ok := b.i64(); ok && z == 0 && l.terms[0].coef.IsInt64() && l.terms[0].coef.Int64() == 1 && l.terms[1].coef.IsInt64() && l.terms[1].coef.Int64() == -1 {
						x, y := l.terms[0].v, l.terms[1].v
						if f.evalOrder(x, y) {
							return -1
						}
					}
				}
			}
		}
		if isString(a.typ) || isFloat(a.typ) {
			if f.truth[mk(OLt, tBool, "", a, b)] || f.truth[mk(OLt, tBool, "", b, a)] {
				return -1
			}
		}
		// nil-ness contradiction for interfaces/pointers
		na, oka := f.nilness(a)
		nb, okb := f.nilness(b)
		if oka && okb && na != nb {
			return -1
		}
		if oka && okb && na && nb {
			return 1
		}
		if a.op == OIface {
			a, b = b, a
		}
		if b.op == OIface {
			if d, ok := f.dyn[a]; ok && !types.Identical(d, b.args[0].typ) {
				return -1
			}
			for _, n := range f.ndyn[a] {
				if types.Identical(n, b.args[0].typ) {
					return -1
				}
			}
		}
	case OLe:
		if f.truth[mk(OLt, tBool, "", c.args[0], c.args[1])] || f.truth[mkEq(c.args[0], c.args[1])] {
			return 1
		}
		if f.truth[mk(OLt, tBool, "", c.args[1], c.args[0])] {
			return -1
		}
	}
	return 0
}

// evalOrder: x<y or y<x known.
func (f *Facts) evalOrder(x, y *Val) bool {
	if width(x.typ) != width(y.typ) || isUnsigned(x.typ) != isUnsigned(y.typ) {
		return false
	}
	return f.truth[mk(OLt, tBool, "", x, y)] || f.truth[mk(OLt, tBool, "", y, x)]
}

// lowConst recognises a BitEq stating that the low n bits of v are those of k.
func lowConst(c *Val) (v *Val, n int, k *big.Int, ok bool) {
	k = new(big.Int)
	seen := map[int]bool{}
	for _, x := range c.obj.([]bitAsg) {
		if x.b.k != 2 || v != nil && x.b.v != v {
			return nil, 0, nil, false
		}
		v = x.b.v
		seen[x.b.i] = true
		if x.v {
			k.SetBit(k, x.b.i, 1)
		}
	}
	for n = 0; seen[n]; n++ {
	}
	return v, n, k, v != nil && n == len(seen)
}

// highZero recognises a BitEq stating that all bits from n up of v are zero.
func highZero(c *Val) (*Val, int, bool) {
	l := c.obj.([]bitAsg)
	if len(l) == 0 || l[0].b.k != 2 {
		return nil, 0, false
	}
	v := l[0].b.v
	w := width(v.typ)
	lo := w
	seen := 0
	for _, x := range l {
		if x.v || x.b.k != 2 || x.b.v != v {
			return nil, 0, false
		}
		seen++
		if x.b.i < lo {
			lo = x.b.i
		}
	}
	return v, lo, seen == w-lo
}

// nilness of a pointer-like value: (isNil, known)
func (f *Facts) nilness(v *Val) (bool, bool) {
	if v.isNil() {
		return true, true
	}
	if nonNilTerm(v) {
		return false, true
	}
	if n, ok := f.isnil[v]; ok {
		return n, true
	}
	if _, ok := f.dyn[v]; ok {
		return false, true
	}
	return false, false
}

// assume adds the boolean term c (or its negation); false when contradictory.
func (f *Facts) assume(c *Val, t bool) bool {
	c = plainVal(c)
	switch e := f.eval(c); {
	case e > 0:
		return t
	case e < 0:
		return !t
	}
	switch c.op {
	case ONot:
		return f.assume(c.args[0], !t)
	case OBitEq:
		l := c.obj.([]bitAsg)
		if t {
			for _, x := range l {
				b := f.simpBit(x.b)
				if b.k <= 1 {
					if (b.k == 1) != x.v {
						return false
					}
					continue
				}
				f.setBit(x.b, x.v)
				if b != x.b {
					f.setBit(b, x.v)
				}
			}
		} else {
			var un []bitAsg
			for _, x := range l {
				if f.simpBit(x.b).k > 1 {
					un = append(un, x)
				}
			}
			if len(un) == 1 {
				f.setBit(un[0].b, !un[0].v)
			}
		}
		if v, n, ok := highZero(c); ok {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(n))
			if t {
				f.refine(v, Range{big.NewInt(0), new(big.Int).Sub(lim, big.NewInt(1))})
			} else if isUnsigned(v.typ) {
				f.refine(v, Range{lim, typeRange(v.typ).hi})
			}
		}
	case OLt:
		a, b := c.args[0], c.args[1]
		if k, ok := b.intConst(); ok && isInt(a.typ) {
			if t {
				f.refine(a, Range{typeRange(a.typ).lo, new(big.Int).Sub(k, big.NewInt(1))})
			} else {
				f.refine(a, Range{k, typeRange(a.typ).hi})
			}
			if r := rangeOf(a, f); r.lo.Cmp(r.hi) > 0 {
				return false
			}
			return true
		}
		if !t && (isInt(a.typ) || isString(a.typ)) {
			// !(a<b) with !(b<a) known gives equality
			if x, ok := f.truth[mk(OLt, tBool, "", b, a)]; ok && !x {
				f.truth[mkEq(a, b)] = true
			}
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if b.isNil() {
			f.isnil[a] = t
			if a.op == OAssert && !t {
				f.isnil[a.args[0]] = false
			}
			return true
		}
		if t {
			if b.isConst() && !b.isNil() {
				f.eq[a] = b
				if a.typ != nil && isInt(a.typ) {
					k, _ := b.intConst()
					f.refine(a, Range{k, k})
				}
				if a.op == OLen { // len(x)==0 for strings
				}
			}
			if isIface(a.typ) || isIface(b.typ) {
				if n, ok := f.nilness(b); ok {
					f.isnil[a] = n
				}
				if n, ok := f.nilness(a); ok {
					f.isnil[b] = n
				}
				if b.op == OIface {
					f.dyn[a] = b.args[0].typ
				}
			}
		} else if k, ok := b.intConst(); ok && isInt(a.typ) {
			r := rangeOf(a, f)
			if r.lo.Cmp(k) == 0 {
				f.refine(a, Range{new(big.Int).Add(k, big.NewInt(1)), r.hi})
			} else if r.hi.Cmp(k) == 0 {
				f.refine(a, Range{r.lo, new(big.Int).Sub(k, big.NewInt(1))})
			}
			if r := rangeOf(a, f); r.lo.Cmp(r.hi) > 0 {
				return false
			}
		}
	case OBoolAnd:
		if t {
			for _, x := range c.args {
				if !f.assume(x, true) {
					return false
				}
			}
		} else {
			var un []*Val
			for _, x := range c.args {
				if f.eval(x) <= 0 {
					un = append(un, x)
				}
			}
			if len(un) == 1 && !f.assume(un[0], false) {
				return false
			}
		}
	}
	f.truth[c] = t
	return true
}

func (f *Facts) setBit(b *Bit, v bool) {
	f.bit[b] = v
	f.bit[bnot(b)] = !v
	if b.k == 6 && !v {
		for _, x := range b.a {
			f.setBit(x, false)
		}
	}
	if b.k == 5 && v {
		for _, x := range b.a {
			f.setBit(x, true)
		}
	}
}

func (f *Facts) refine(v *Val, r Range) {
	if o, ok := f.rng[v]; ok {
		r = inter(o, r)
	}
	f.rng[v] = r
	// a lossless extension constrains its source
	if v.op == OBits {
		if s, k := extOf(v); s != nil && k == 1 {
			f.refine(s, r)
		}
	}
	if v.op == OLin {
		l := v.obj.(linForm)
		tr := rangeOf(v, nil)
		full := typeRange(v.typ)
		if len(l.terms) == 1 && l.terms[0].coef.IsInt64() && l.terms[0].coef.Int64() == 1 && (tr.lo.Cmp(full.lo) > 0 || tr.hi.Cmp(full.hi) < 0) {
			f.refine(l.terms[0].v, Range{new(big.Int).Sub(r.lo, l.c), new(big.Int).Sub(r.hi, l.c)})
		}
	}
}
