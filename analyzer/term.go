package main

// Hash-consed value terms of the abstract domain. Integers are kept either as
// constants, as linear forms or as vectors of symbolic bits, so that the many
// ways of writing the same shift/mask/byte-order computation meet in one
// normal form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OConst Op = iota
	OAtom
	OBits
	OLin
	OEq     // a == b (bool)
	OLt     // a < b
	OLe     // a <= b, floats only
	OBitEq  // conjunction of bit assignments
	ONot    // boolean not
	OUn     // other unary, aux=token
	OBin    // other binary, aux=token
	OConcat // string concatenation, flattened
	OConv   // conversion to typ
	OIface  // interface holding args[0]
	OAssert // value of asserting args[0] to typ
	OObj    // address of an allocated object
	OGlobal // address of a global
	OFieldAddr
	OIndexAddr
	OFn
	OClosure
	OTuple
	OStruct // struct or array value with component values
	OView   // slice view: args base address, off, len
	OSeq    // immutable sequence: chunks, aux: per chunk 'e' element or 's' spliced sequence
	OLen
	OCap
	OIndex // element of opaque sequence/string/array
	OSub   // opaque subsequence: args x, lo, hi
	OMap   // map object's content root: aux
	OMapUpd
	OLookup
	OLoad // initial content of an address
	OField
	OCall // pure call
	OBoolAnd
)

var opNames = map[Op]string{OConst: "const", OAtom: "atom", OBits: "bits", OLin: "lin", OEq: "==", OLt: "<", OLe: "<=", OBitEq: "biteq", ONot: "!", OUn: "un", OBin: "bin", OConcat: "concat", OConv: "conv", OIface: "iface", OAssert: "assert", OObj: "obj", OGlobal: "global", OFieldAddr: "&fld", OIndexAddr: "&idx", OFn: "fn", OClosure: "closure", OTuple: "tuple", OStruct: "struct", OView: "view", OSeq: "seq", OLen: "len", OCap: "cap", OIndex: "index", OSub: "sub", OMap: "map", OMapUpd: "mapupd", OLookup: "lookup", OLoad: "load", OField: "field", OCall: "call", OBoolAnd: "and"}

type Val struct {
	id   int
	op   Op
	typ  types.Type
	args []*Val
	aux  string
	obj  any // constant.Value, *ssa.Function, *ssa.Global, lin coefs, bits...
	bits []*Bit
}

type linForm struct {
	c     *big.Int
	terms []linTerm
}
type linTerm struct {
	coef *big.Int
	v    *Val
}

type Interner struct {
	tab    map[string]*Val
	n      int
	types  typeutil.Map
	ntypes int
	btab   map[string]*Bit
	bn     int
	B0, B1 *Bit
}

var I = newInterner()

func newInterner() *Interner {
	in := &Interner{tab: map[string]*Val{}, btab: map[string]*Bit{}}
	in.B0 = in.mkbit(&Bit{k: 0})
	in.B1 = in.mkbit(&Bit{k: 1})
	return in
}

func (in *Interner) tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if x := in.types.At(t); x != nil {
		return x.(int)
	}
	in.ntypes++
	in.types.Set(t, in.ntypes)
	return in.ntypes
}

func (in *Interner) mk(v *Val, key string) *Val {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(v.op)))
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(in.tid(v.typ)))
	for _, a := range v.args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('-')
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	sb.WriteByte('|')
	sb.WriteString(v.aux)
	sb.WriteByte('|')
	sb.WriteString(key)
	k := sb.String()
	if o, ok := in.tab[k]; ok {
		return o
	}
	in.n++
	v.id = in.n
	in.tab[k] = v
	return v
}

func mk(op Op, typ types.Type, aux string, args ...*Val) *Val {
	return I.mk(&Val{op: op, typ: typ, aux: aux, args: args}, "")
}

func atom(typ types.Type, label string) *Val { return mk(OAtom, typ, label) }

// ---------------------------------------------------------------- constants

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tByte   = types.Typ[types.Uint8]
)

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func mkConst(c constant.Value, typ types.Type) *Val {
	v := &Val{op: OConst, typ: typ, obj: c}
	if c == nil {
		v.aux = "nil"
	} else {
		if isInt(typ) {
			c = constant.ToInt(c)
			v.obj = c
		} else if isFloat(typ) {
			if f := constant.ToFloat(c); f.Kind() == constant.Float {
				c = f
				v.obj = c
			}
		}
		v.aux = fmt.Sprint(c.Kind()) + ":" + c.ExactString()
	}
	return I.mk(v, "")
}

func mkBool(b bool) *Val                { return mkConst(constant.MakeBool(b), tBool) }
func mkStr(s string) *Val               { return mkConst(constant.MakeString(s), tString) }
func mkNil(t types.Type) *Val           { return mkConst(nil, t) }
func mkIntT(t types.Type, n int64) *Val { return mkBig(t, big.NewInt(n)) }
func mkInt(n int64) *Val                { return mkIntT(tInt, n) }

// wrap reduces x modulo the width of t into its range.
func wrap(t types.Type, x *big.Int) *big.Int {
	w := uint(width(t))
	m := new(big.Int).Lsh(big.NewInt(1), w)
	r := new(big.Int).Mod(x, m)
	if !isUnsigned(t) && r.Bit(int(w)-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

func mkBig(t types.Type, x *big.Int) *Val {
	return mkConst(constant.Make(wrap(t, x)), t)
}

func (v *Val) isConst() bool { return v.op == OConst }
func (v *Val) isNil() bool   { return v.op == OConst && v.obj == nil }
func (v *Val) cv() constant.Value {
	c, _ := v.obj.(constant.Value)
	return c
}
func (v *Val) intConst() (*big.Int, bool) {
	if v.op != OConst || v.obj == nil || !isInt(v.typ) {
		return nil, false
	}
	c := constant.ToInt(v.cv())
	switch x := constant.Val(c).(type) {
	case int64:
		return big.NewInt(x), true
	case *big.Int:
		return x, true
	}
	return nil, false
}
func (v *Val) i64() (int64, bool) {
	x, ok := v.intConst()
	if !ok || !x.IsInt64() {
		return 0, false
	}
	return x.Int64(), true
}
func (v *Val) boolConst() (val, ok bool) {
	if v.op != OConst || v.obj == nil || v.cv().Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.cv()), true
}
func (v *Val) strConst() (string, bool) {
	if v.op != OConst || v.obj == nil || v.cv().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v.cv()), true
}
func (v *Val) floatConst() (float64, bool) {
	if v.op != OConst || v.obj == nil || !isFloat(v.typ) {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(v.cv()))
	return f, true
}

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkIntT(t, 0)
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return mkNil(t)
	case *types.Struct:
		args := make([]*Val, u.NumFields())
		for i := range args {
			args[i] = zeroVal(u.Field(i).Type())
		}
		return mk(OStruct, t, "", args...)
	case *types.Array:
		if u.Len() > 256 {
			return mk(OAtom, t, "zeroarray")
		}
		args := make([]*Val, u.Len())
		for i := range args {
			args[i] = zeroVal(u.Elem())
		}
		return mk(OStruct, t, "", args...)
	case *types.Tuple:
		args := make([]*Val, u.Len())
		for i := range args {
			args[i] = zeroVal(u.At(i).Type())
		}
		return mk(OTuple, t, "", args...)
	}
	return mkNil(t)
}

// ---------------------------------------------------------------- bits

type Bit struct {
	id int
	k  int // 0 zero,1 one,2 var,3 not,4 xor,5 and,6 or
	v  *Val
	i  int
	a  []*Bit
}

func (in *Interner) mkbit(b *Bit) *Bit {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|", b.k)
	if b.v != nil {
		fmt.Fprintf(&sb, "%d.%d", b.v.id, b.i)
	}
	for _, x := range b.a {
		fmt.Fprintf(&sb, ",%d", x.id)
	}
	k := sb.String()
	if o, ok := in.btab[k]; ok {
		return o
	}
	in.bn++
	b.id = in.bn
	in.btab[k] = b
	return b
}

func bvar(v *Val, i int) *Bit { return I.mkbit(&Bit{k: 2, v: v, i: i}) }

func bnot(a *Bit) *Bit {
	switch a.k {
	case 0:
		return I.B1
	case 1:
		return I.B0
	case 3:
		return a.a[0]
	case 4:
		// fold the negation into the parity of the xor
		return bxor(a, I.B1)
	}
	return I.mkbit(&Bit{k: 3, a: []*Bit{a}})
}

func bxor(a, b *Bit) *Bit {
	par := false
	cnt := map[*Bit]bool{}
	var add func(x *Bit)
	add = func(x *Bit) {
		switch x.k {
		case 0:
		case 1:
			par = !par
		case 3:
			par = !par
			add(x.a[0])
		case 4:
			for _, y := range x.a {
				add(y)
			}
		default:
			if cnt[x] {
				delete(cnt, x)
			} else {
				cnt[x] = true
			}
		}
	}
	add(a)
	add(b)
	var l []*Bit
	for x := range cnt {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	switch len(l) {
	case 0:
		if par {
			return I.B1
		}
		return I.B0
	case 1:
		if par {
			return bnot(l[0])
		}
		return l[0]
	}
	if par {
		l = append([]*Bit{I.B1}, l...)
	}
	return I.mkbit(&Bit{k: 4, a: l})
}

func bandor(k int, a, b *Bit) *Bit {
	zero, one := I.B0, I.B1
	if k == 6 {
		zero, one = one, zero
	}
	set := map[*Bit]bool{}
	dead := false
	var add func(x *Bit)
	add = func(x *Bit) {
		if x == zero {
			dead = true
			return
		}
		if x == one {
			return
		}
		if x.k == k {
			for _, y := range x.a {
				add(y)
			}
			return
		}
		set[x] = true
	}
	add(a)
	add(b)
	if dead {
		return zero
	}
	var l []*Bit
	for x := range set {
		if set[bnot(x)] {
			return zero
		}
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	switch len(l) {
	case 0:
		return one
	case 1:
		return l[0]
	}
	return I.mkbit(&Bit{k: k, a: l})
}
func band(a, b *Bit) *Bit { return bandor(5, a, b) }
func bor(a, b *Bit) *Bit  { return bandor(6, a, b) }

func toBits(v *Val) []*Bit {
	if v.bits != nil {
		return v.bits
	}
	w := width(v.typ)
	r := make([]*Bit, w)
	if c, ok := v.intConst(); ok {
		x := new(big.Int).Set(c)
		if x.Sign() < 0 {
			x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		for i := range r {
			if x.Bit(i) == 1 {
				r[i] = I.B1
			} else {
				r[i] = I.B0
			}
		}
	} else {
		for i := range r {
			r[i] = bvar(v, i)
		}
	}
	v.bits = r
	return r
}

func fromBits(t types.Type, bs []*Bit) *Val {
	allc := true
	for _, b := range bs {
		if b.k > 1 {
			allc = false
			break
		}
	}
	if allc {
		x := new(big.Int)
		for i, b := range bs {
			if b.k == 1 {
				x.SetBit(x, i, 1)
			}
		}
		return mkBig(t, x)
	}
	if bs[0].k == 2 && bs[0].i == 0 {
		a := bs[0].v
		if types.Identical(a.typ, t) && width(a.typ) == len(bs) {
			id := true
			for i, b := range bs {
				if b.k != 2 || b.v != a || b.i != i {
					id = false
					break
				}
			}
			if id {
				return a
			}
		}
	}
	var sb strings.Builder
	for _, b := range bs {
		sb.WriteString(strconv.Itoa(b.id))
		sb.WriteByte('.')
	}
	return I.mk(&Val{op: OBits, typ: t, bits: bs}, sb.String())
}

// ---------------------------------------------------------------- linear

func toLin(v *Val) linForm {
	if c, ok := v.intConst(); ok {
		return linForm{c: c}
	}
	if v.op == OLin {
		return v.obj.(linForm)
	}
	// a widening conversion of a linear form keeps bits; treat as atom
	return linForm{c: big.NewInt(0), terms: []linTerm{{big.NewInt(1), v}}}
}

func linAdd(a, b linForm, k int64) linForm {
	r := linForm{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, big.NewInt(k)))}
	m := map[*Val]*big.Int{}
	var order []*Val
	add := func(ts []linTerm, k int64) {
		for _, t := range ts {
			x, ok := m[t.v]
			if !ok {
				x = new(big.Int)
				order = append(order, t.v)
			}
			m[t.v] = new(big.Int).Add(x, new(big.Int).Mul(t.coef, big.NewInt(k)))
		}
	}
	add(a.terms, 1)
	add(b.terms, k)
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, v := range order {
		if m[v].Sign() != 0 {
			r.terms = append(r.terms, linTerm{m[v], v})
		}
	}
	return r
}

func linScale(a linForm, k *big.Int) linForm {
	r := linForm{c: new(big.Int).Mul(a.c, k)}
	if k.Sign() == 0 {
		return r
	}
	for _, t := range a.terms {
		r.terms = append(r.terms, linTerm{new(big.Int).Mul(t.coef, k), t.v})
	}
	return r
}

func fromLin(t types.Type, l linForm) *Val {
	w := uint(width(t))
	m := new(big.Int).Lsh(big.NewInt(1), w)
	half := new(big.Int).Lsh(big.NewInt(1), w-1)
	norm := func(x *big.Int) *big.Int {
		r := new(big.Int).Mod(x, m)
		if r.Cmp(half) >= 0 {
			r.Sub(r, m)
		}
		return r
	}
	c := wrap(t, l.c)
	var ts []linTerm
	for _, x := range l.terms {
		k := norm(x.coef)
		if k.Sign() != 0 {
			ts = append(ts, linTerm{k, x.v})
		}
	}
	if len(ts) == 0 {
		return mkBig(t, c)
	}
	if len(ts) == 1 && c.Sign() == 0 && ts[0].coef.IsInt64() && ts[0].coef.Int64() == 1 {
		return ts[0].v
	}
	// 0 - x where x has only bit 0: all bits equal that bit
	if len(ts) == 1 && c.Sign() == 0 && ts[0].coef.IsInt64() && ts[0].coef.Int64() == -1 {
		bs := toBits(ts[0].v)
		only0 := true
		for _, b := range bs[1:] {
			if b.k != 0 {
				only0 = false
			}
		}
		if only0 {
			r := make([]*Bit, len(bs))
			for i := range r {
				r[i] = bs[0]
			}
			return fromBits(t, r)
		}
	}
	lf := linForm{c, ts}
	var sb strings.Builder
	sb.WriteString(c.String())
	for _, x := range ts {
		fmt.Fprintf(&sb, "+%s*%d", x.coef, x.v.id)
	}
	return I.mk(&Val{op: OLin, typ: t, obj: lf}, sb.String())
}

// ---------------------------------------------------------------- intervals

type Range struct{ lo, hi *big.Int }

func typeRange(t types.Type) Range {
	w := uint(width(t))
	if isUnsigned(t) {
		return Range{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))}
	}
	h := new(big.Int).Lsh(big.NewInt(1), w-1)
	return Range{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

func inter(a, b Range) Range {
	r := a
	if b.lo.Cmp(r.lo) > 0 {
		r.lo = b.lo
	}
	if b.hi.Cmp(r.hi) < 0 {
		r.hi = b.hi
	}
	return r
}

// rangeOf computes the interval of an integer value under the facts f (may be nil).
func rangeOf(v *Val, f *Facts) Range {
	if c, ok := v.intConst(); ok {
		return Range{c, c}
	}
	r := typeRange(v.typ)
	if f != nil {
		if x, ok := f.rng[v]; ok {
			r = inter(r, x)
		}
	}
	switch v.op {
	case OLen, OCap:
		r = inter(r, Range{big.NewInt(0), maxLen})
	case OLin:
		l := v.obj.(linForm)
		lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
		for _, t := range l.terms {
			x := rangeOf(t.v, f)
			a, b := new(big.Int).Mul(x.lo, t.coef), new(big.Int).Mul(x.hi, t.coef)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			lo.Add(lo, a)
			hi.Add(hi, b)
		}
		tr := typeRange(v.typ)
		if lo.Cmp(tr.lo) >= 0 && hi.Cmp(tr.hi) <= 0 {
			r = inter(r, Range{lo, hi})
		}
	}
	if v.op == OBits || (f != nil && len(f.bit) > 0) {
		bs := toBits(v)
		if v.op == OBits {
			if src, k := extOf(v); src != nil && k != 0 {
				r = inter(r, rangeOf(src, f))
			}
		}
		get := func(i int) *Bit {
			b := bs[i]
			if f != nil {
				b = f.simpBit(b)
			}
			return b
		}
		w := len(bs)
		lo, hi := new(big.Int), new(big.Int)
		signed := !isUnsigned(v.typ)
		top := w
		if signed {
			top = w - 1
		}
		// sign-run: number of top bits identical to the sign bit
		if signed {
			s := get(w - 1)
			n := w - 1
			for n > 0 && get(n-1) == s {
				n--
			}
			switch s.k {
			case 0:
				for i := 0; i < top; i++ {
					b := get(i)
					if b.k == 1 {
						lo.SetBit(lo, i, 1)
					}
					if b.k != 0 {
						hi.SetBit(hi, i, 1)
					}
				}
				r = inter(r, Range{lo, hi})
			default:
				h := new(big.Int).Lsh(big.NewInt(1), uint(n))
				x := Range{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
				if s.k == 1 {
					x.hi = big.NewInt(-1)
				}
				r = inter(r, x)
			}
		} else {
			for i := 0; i < top; i++ {
				b := get(i)
				if b.k == 1 {
					lo.SetBit(lo, i, 1)
				}
				if b.k != 0 {
					hi.SetBit(hi, i, 1)
				}
			}
			r = inter(r, Range{lo, hi})
		}
	}
	return r
}

// extOf: if v's bits are a lossless extension of a single source value, return it.
// kind 1: the source's numeric value is preserved.
func extOf(v *Val) (*Val, int) {
	bs := toBits(v)
	if len(bs) == 0 || bs[0].k != 2 || bs[0].i != 0 {
		return nil, 0
	}
	src := bs[0].v
	w := width(src.typ)
	if w > len(bs) || w == 0 {
		return nil, 0
	}
	for i := 0; i < w; i++ {
		if bs[i].k != 2 || bs[i].v != src || bs[i].i != i {
			return nil, 0
		}
	}
	if w == len(bs) {
		if isUnsigned(v.typ) == isUnsigned(src.typ) {
			return src, 1
		}
		return nil, 0
	}
	for i := w; i < len(bs); i++ {
		if isUnsigned(src.typ) {
			if bs[i].k != 0 {
				return nil, 0
			}
		} else {
			if isUnsigned(v.typ) || bs[i] != bs[w-1] {
				return nil, 0
			}
		}
	}
	return src, 1
}

// ---------------------------------------------------------------- booleans

func mkNot(a *Val) *Val {
	if b, ok := a.boolConst(); ok {
		return mkBool(!b)
	}
	if a.op == ONot {
		return a.args[0]
	}
	if a.op == OBitEq {
		l := a.obj.([]bitAsg)
		if len(l) == 1 {
			return mkBitEq([]bitAsg{{l[0].b, !l[0].v}})
		}
	}
	return mk(ONot, tBool, "", a)
}

type bitAsg struct {
	b *Bit
	v bool
}

func mkBitEq(l []bitAsg) *Val {
	m := map[*Bit]bool{}
	var order []*Bit
	for _, x := range l {
		b, v := x.b, x.v
		if b.k == 3 {
			b, v = b.a[0], !v
		}
		if b.k == 4 && b.a[0].k == 1 { // parity-1 xor: strip
			b, v = bnot(b), !v
		}
		if b.k <= 1 {
			if (b.k == 1) != v {
				return mkBool(false)
			}
			continue
		}
		if b.k == 6 && !v || b.k == 5 && v {
			// or==0 / and==1 : distribute
			var sub []bitAsg
			for _, y := range b.a {
				sub = append(sub, bitAsg{y, v})
			}
			e := mkBitEq(sub)
			if c, ok := e.boolConst(); ok {
				if !c {
					return e
				}
				continue
			}
			for _, y := range e.obj.([]bitAsg) {
				if o, ok := m[y.b]; ok {
					if o != y.v {
						return mkBool(false)
					}
					continue
				}
				m[y.b] = y.v
				order = append(order, y.b)
			}
			continue
		}
		if o, ok := m[b]; ok {
			if o != v {
				return mkBool(false)
			}
			continue
		}
		m[b] = v
		order = append(order, b)
	}
	if len(order) == 0 {
		return mkBool(true)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var sb strings.Builder
	var out []bitAsg
	for _, b := range order {
		fmt.Fprintf(&sb, "%d=%v,", b.id, m[b])
		out = append(out, bitAsg{b, m[b]})
	}
	return I.mk(&Val{op: OBitEq, typ: tBool, obj: out}, sb.String())
}

func isPow2(x *big.Int) (int, bool) {
	if x.Sign() <= 0 {
		return 0, false
	}
	n := x.BitLen() - 1
	return n, new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(x) == 0
}

// fits reports whether a-b cannot overflow int64 arithmetic at type width.
func fits(r Range, t types.Type) bool {
	tr := typeRange(t)
	q := new(big.Int).Rsh(tr.hi, 1)
	nq := new(big.Int).Neg(q)
	return r.lo.Cmp(nq) >= 0 && r.hi.Cmp(q) <= 0
}

func mkLtInt(a, b *Val) *Val {
	if a == b {
		return mkBool(false)
	}
	ra, rb := rangeOf(a, nil), rangeOf(b, nil)
	if ra.hi.Cmp(rb.lo) < 0 {
		return mkBool(true)
	}
	if ra.lo.Cmp(rb.hi) >= 0 {
		return mkBool(false)
	}
	t := a.typ
	if c, ok := b.intConst(); ok {
		return ltConst(a, c)
	}
	if c, ok := a.intConst(); ok {
		// c < b  <=> !(b < c+1)
		c1 := new(big.Int).Add(c, big.NewInt(1))
		if c1.Cmp(typeRange(t).hi) > 0 {
			return mkBool(false)
		}
		return mkNot(ltConst(b, c1))
	}
	if fits(ra, t) && fits(rb, t) {
		d := linAdd(toLin(a), toLin(b), -1)
		k := new(big.Int).Neg(d.c)
		d.c = big.NewInt(0)
		neg := false
		if len(d.terms) > 0 && d.terms[0].coef.Sign() < 0 {
			neg = true
			d = linScale(d, big.NewInt(-1))
		}
		dt := types.Type(types.Typ[types.Int64])
		dv := fromLin(dt, d)
		if neg {
			// -d' < k  <=> d' > -k <=> !(d' < -k+1)
			return mkNot(ltConst(dv, new(big.Int).Add(new(big.Int).Neg(k), big.NewInt(1))))
		}
		return ltConst(dv, k)
	}
	return mk(OLt, tBool, "", a, b)
}

// peel strips value-preserving conversions for comparisons.
func peel(a *Val) *Val {
	for a.op == OBits {
		s, k := extOf(a)
		if s == nil || k != 1 {
			return a
		}
		a = s
	}
	return a
}

func ltConst(a *Val, c *big.Int) *Val {
	a = peel(a)
	r := rangeOf(a, nil)
	if r.hi.Cmp(c) < 0 {
		return mkBool(true)
	}
	if r.lo.Cmp(c) >= 0 {
		return mkBool(false)
	}
	if i64t := types.Type(types.Typ[types.Int64]); a.op == OLin && a.typ != i64t && fits(r, i64t) && r.lo.Cmp(typeRange(a.typ).lo) > 0 && r.hi.Cmp(typeRange(a.typ).hi) < 0 {
		// comparisons of sums that cannot overflow share one type
		return ltConst(fromLin(i64t, a.obj.(linForm)), c)
	}
	if a.op == OLin {
		l := a.obj.(linForm)
		tr := typeRange(a.typ)
		if l.c.Sign() != 0 {
			rr := rangeOf(a, nil)
			if rr.lo.Cmp(tr.lo) > 0 || rr.hi.Cmp(tr.hi) < 0 { // known not to overflow
				l2 := linForm{big.NewInt(0), l.terms}
				return ltConst(fromLin(a.typ, l2), new(big.Int).Sub(c, l.c))
			}
		} else if len(l.terms) > 0 && l.terms[0].coef.Sign() < 0 && !isUnsigned(a.typ) && r.lo.Cmp(tr.lo) > 0 && r.hi.Cmp(tr.hi) < 0 {
			// one orientation: a < c  <=>  !(-a < 1-c)
			return mkNot(ltConst(fromLin(a.typ, linScale(l, big.NewInt(-1))), new(big.Int).Sub(big.NewInt(1), c)))
		}
	}
	bs := toBits(a)
	if c.Sign() == 0 && !isUnsigned(a.typ) {
		return mkBitEq([]bitAsg{{bs[len(bs)-1], true}})
	}
	if isUnsigned(a.typ) || r.lo.Sign() >= 0 {
		if n, ok := isPow2(c); ok {
			if isUnsigned(a.typ) || a.op == OBits {
				var l []bitAsg
				for i := n; i < len(bs); i++ {
					l = append(l, bitAsg{bs[i], false})
				}
				return mkBitEq(l)
			}
		}
	}
	if c.Sign() > 0 && r.lo.Sign() >= 0 && c.IsInt64() && c.Int64() == 1 {
		return mkEq(a, mkBig(a.typ, big.NewInt(0)))
	}
	return mk(OLt, tBool, "", a, mkConstRaw(a.typ, c))
}

func mkConstRaw(t types.Type, c *big.Int) *Val { return mkConst(constant.Make(c), t) }

// plainVal undoes a change of type that keeps the value.
func plainVal(v *Val) *Val {
	for v.op == OConv && v.aux == "ct" && !isIface(v.typ) {
		v = v.args[0]
	}
	return v
}

func mkEq(a, b *Val) *Val {
	if x, y := plainVal(a), plainVal(b); x != a || y != b {
		if y.isNil() {
			y = mkNil(x.typ)
		} else if y.isConst() && !x.isConst() {
			y = mkConst(y.cv(), x.typ)
		} else if x.isNil() {
			x = mkNil(y.typ)
		} else if x.isConst() && !y.isConst() {
			x = mkConst(x.cv(), y.typ)
		}
		a, b = x, y
	}
	if a == b {
		if isFloat(a.typ) && !a.isConst() {
			return mk(OEq, tBool, "", a, b)
		}
		return mkBool(true)
	}
	if a.isConst() && b.isConst() {
		if a.isNil() || b.isNil() {
			return mkBool(a.isNil() && b.isNil())
		}
		if a.cv().Kind() == constant.Bool || a.cv().Kind() == constant.String {
			return mkBool(constant.Compare(a.cv(), token.EQL, b.cv()))
		}
		return mkBool(constant.Compare(constant.ToFloat(a.cv()), token.EQL, constant.ToFloat(b.cv())))
	}
	if a.isConst() {
		a, b = b, a
	}
	switch {
	case isBool(a.typ) && isBool(b.typ):
		if c, ok := b.boolConst(); ok {
			if c {
				return a
			}
			return mkNot(a)
		}
	case isInt(a.typ) && isInt(b.typ):
		if c, ok := b.intConst(); ok {
			p := peel(a)
			if p != a {
				r := rangeOf(p, nil)
				if c.Cmp(r.lo) < 0 || c.Cmp(r.hi) > 0 {
					return mkBool(false)
				}
				return mkEq(p, mkBig(p.typ, c))
			}
			if a.op == OLin {
				l := a.obj.(linForm)
				if l.c.Sign() != 0 {
					return mkEq(fromLin(a.typ, linForm{big.NewInt(0), l.terms}), mkBig(a.typ, new(big.Int).Sub(c, l.c)))
				}
			}
			if a.op == OBits {
				cb := toBits(b)
				ab := toBits(a)
				var l []bitAsg
				for i := range ab {
					l = append(l, bitAsg{ab[i], cb[i].k == 1})
				}
				return mkBitEq(l)
			}
			return mk(OEq, tBool, "", a, b)
		}
		pa, pb := peel(a), peel(b)
		if pa != a && pb != b && types.Identical(pa.typ, pb.typ) {
			return mkEq(pa, pb)
		}
		ra, rb := rangeOf(a, nil), rangeOf(b, nil)
		if ra.hi.Cmp(rb.lo) < 0 || rb.hi.Cmp(ra.lo) < 0 {
			return mkBool(false)
		}
		d := linAdd(toLin(a), toLin(b), -1)
		if len(d.terms) == 0 {
			return mkBool(d.c.Sign() == 0)
		}
		if len(d.terms) > 0 && d.terms[0].coef.Sign() < 0 {
			d = linScale(d, big.NewInt(-1))
		}
		k := new(big.Int).Neg(d.c)
		d.c = big.NewInt(0)
		if len(d.terms) == 1 && d.terms[0].coef.IsInt64() && d.terms[0].coef.Int64() == 1 {
			return mkEq(d.terms[0].v, mkBig(d.terms[0].v.typ, k))
		}
		return mk(OEq, tBool, "", fromLin(a.typ, d), mkBig(a.typ, k))
	case isString(a.typ) && isString(b.typ):
		if s, ok := b.strConst(); ok && s == "" {
			return mkEq(mkLen(a), mkInt(0))
		}
		if r := seqEq(a, b); r != nil {
			return r
		}
	}
	if isIface(a.typ) || isIface(b.typ) {
		// comparing an interface with a concrete value converts it first
		x, y := a, b
		if x.op == OIface && y.op == OIface {
			if !types.Identical(x.args[0].typ, y.args[0].typ) {
				return mkBool(false)
			}
			return mkEq(x.args[0], y.args[0])
		}
		if x.op == OIface && y.isNil() || y.op == OIface && x.isNil() {
			return mkBool(false)
		}
	}
	if a.isNil() || b.isNil() {
		x := a
		if a.isNil() {
			x = b
		}
		if nonNilTerm(x) {
			return mkBool(false)
		}
		return mk(OEq, tBool, "", x, mkNil(x.typ))
	}
	if isDistinctAddr(a, b) {
		return mkBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, tBool, "", a, b)
}

// isDistinctAddr tells that two addresses denote different variables, whatever the state.
func isDistinctAddr(a, b *Val) bool {
	if a.op == OObj && b.op == OObj && a != b || a.op == OGlobal && b.op == OGlobal && a != b {
		return true
	}
	path := func(a *Val) []*Val {
		var p []*Val
		for a.op == OFieldAddr || a.op == OIndexAddr {
			p = append([]*Val{a}, p...)
			a = a.args[0]
		}
		if a.op != OObj && a.op != OGlobal {
			return nil
		}
		return append([]*Val{a}, p...)
	}
	p, q := path(a), path(b)
	if p == nil || q == nil {
		return false
	}
	if p[0] != q[0] {
		return true
	}
	for i := 1; i < len(p) && i < len(q); i++ {
		x, y := p[i], q[i]
		if x == y {
			continue
		}
		if x.op == OFieldAddr && y.op == OFieldAddr {
			return x.obj != nil && y.obj != nil && x.obj != y.obj
		}
		return false
	}
	return false
}

func nonNilTerm(x *Val) bool {
	switch x.op {
	case OObj, OGlobal, OFieldAddr, OIndexAddr, OFn, OClosure, OIface, OStruct:
		return true
	case OView:
		return nonNilTerm(x.args[0])
	case OSeq:
		return len(x.args) > 0 && strings.Contains(x.aux, "e")
	case OMapUpd, OMap:
		return true
	case OConv:
		return x.aux == "mem" // allocated by the conversion
	}
	return false
}

// ---------------------------------------------------------------- sequences

// mkSeq builds an immutable sequence; kinds[i] is 'e' (element) or 's' (splice).
func mkSeq(t types.Type, vs []*Val, kinds []byte) *Val {
	var ov []*Val
	var ok []byte
	for i, v := range vs {
		if kinds[i] == 's' {
			if v.op == OSeq {
				ov = append(ov, v.args...)
				ok = append(ok, v.aux...)
				continue
			}
			if v.isNil() {
				continue
			}
			if v.op == OConst {
				if s, k := v.strConst(); k { // constant string: bytes
					for j := 0; j < len(s); j++ {
						ov = append(ov, mkIntT(tByte, int64(s[j])))
						ok = append(ok, 'e')
					}
					continue
				}
			}
			if v.op == OConv && isString(v.args[0].typ) && !isString(v.typ) {
				// bytes of a string: splice the string itself
				v = v.args[0]
				if v.op == OConst || v.op == OConcat {
					r := mkSeq(t, []*Val{v}, []byte{'s'})
					ov = append(ov, r.args...)
					ok = append(ok, r.aux...)
					continue
				}
			}
			if v.op == OConv && isString(v.typ) && !isString(v.args[0].typ) {
				v = v.args[0]
				if v.op == OSeq {
					ov = append(ov, v.args...)
					ok = append(ok, v.aux...)
					continue
				}
			}
			if v.op == OConcat {
				for _, a := range v.args {
					r := mkSeq(t, []*Val{a}, []byte{'s'})
					ov = append(ov, r.args...)
					ok = append(ok, r.aux...)
				}
				continue
			}
		}
		ov = append(ov, v)
		ok = append(ok, kinds[i])
	}
	ov, ok = joinSubs(ov, ok)
	return mk(OSeq, t, string(ok), ov...)
}

// joinSubs merges neighbouring parts of one sequence.
func joinSubs(vs []*Val, ks []byte) ([]*Val, []byte) {
	var rv []*Val
	var rk []byte
	for i, v := range vs {
		if n := len(rv); n > 0 && ks[i] == 's' && rk[n-1] == 's' && v.op == OSub && rv[n-1].op == OSub && v.args[0] == rv[n-1].args[0] && rv[n-1].args[2] == v.args[1] {
			rv[n-1] = seqSub(v.args[0], rv[n-1].args[1], v.args[2])
			continue
		}
		rv = append(rv, v)
		rk = append(rk, ks[i])
	}
	return rv, rk
}

func mkLen(x *Val) *Val {
	switch x.op {
	case OConst:
		if s, ok := x.strConst(); ok {
			return mkInt(int64(len(s)))
		}
		if x.isNil() {
			return mkInt(0)
		}
	case OSeq:
		l := linForm{c: big.NewInt(0)}
		for i, a := range x.args {
			if x.aux[i] == 'e' {
				l.c = new(big.Int).Add(l.c, big.NewInt(1))
			} else {
				l = linAdd(l, toLin(mkLen(a)), 1)
			}
		}
		return fromLin(tInt, l)
	case OView:
		return x.args[2]
	case OConcat:
		l := linForm{c: big.NewInt(0)}
		for _, a := range x.args {
			l = linAdd(l, toLin(mkLen(a)), 1)
		}
		return fromLin(tInt, l)
	case OConv:
		if isString(x.typ) != isString(x.args[0].typ) && !isInt(x.args[0].typ) {
			return mkLen(x.args[0])
		}
		if x.aux == "ct" {
			return mkLen(x.args[0])
		}
	case OStruct:
		return mkInt(int64(len(x.args)))
	case OSub:
		return fromLin(tInt, linAdd(toLin(x.args[2]), toLin(x.args[1]), -1))
	case OAtom:
		if n, ok := x.obj.(*Val); ok {
			return n
		}
	}
	if p, ok := x.typ.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	if a, ok := x.typ.Underlying().(*types.Array); ok {
		return mkInt(a.Len())
	}
	return mk(OLen, tInt, "", x)
}

// seqEq compares strings whose bytes are (partly) known; nil if that tells nothing.
func seqEq(a, b *Val) *Val {
	known := func(v *Val) bool {
		return v.op == OConst || v.op == OConcat || v.op == OConv && len(v.args) == 1 && v.args[0].op == OSeq
	}
	if !known(a) || !known(b) {
		return nil
	}
	bs := types.NewSlice(tByte)
	x, y := mkSeq(bs, []*Val{a}, []byte{'s'}), mkSeq(bs, []*Val{b}, []byte{'s'})
	if x == y {
		return mkBool(true)
	}
	i := 0
	var un []*Val
	for ; i < len(x.args) && i < len(y.args) && x.aux[i] == 'e' && y.aux[i] == 'e'; i++ {
		e := mkEq(x.args[i], y.args[i])
		if t, ok := e.boolConst(); ok {
			if !t {
				return e
			}
			continue
		}
		un = append(un, e)
	}
	if i == len(x.args) && i == len(y.args) {
		switch len(un) {
		case 0:
			return mkBool(true)
		case 1:
			return un[0]
		}
		return mk(OBoolAnd, tBool, "", un...)
	}
	le := mkEq(mkLen(x), mkLen(y))
	if t, ok := le.boolConst(); ok && !t {
		return le
	}
	return nil
}

// seqAtom is an opaque sequence whose length is the given value.
func seqAtom(t types.Type, label string, n *Val) *Val {
	v := I.mk(&Val{op: OAtom, typ: t, aux: label, obj: n}, "len"+strconv.Itoa(n.id))
	return v
}

// seqIndex returns element i of an immutable sequence or nil when not determined.
func seqIndex(x *Val, idx *Val, et types.Type) *Val {
	if x.op == OConst {
		if s, ok := x.strConst(); ok {
			if i, ok := idx.i64(); ok && i >= 0 && i < int64(len(s)) {
				return mkIntT(et, int64(s[i]))
			}
		}
	}
	if x.op == OSeq {
		off := linForm{c: big.NewInt(0)}
		for i, a := range x.args {
			d := linAdd(toLin(idx), off, -1)
			if len(d.terms) == 0 {
				if x.aux[i] == 'e' {
					if d.c.Sign() == 0 {
						return a
					}
				} else if n, ok := mkLen(a).i64(); ok {
					if d.c.Cmp(big.NewInt(n)) < 0 && d.c.Sign() >= 0 {
						return seqIndex(a, mkBig(tInt, d.c), et)
					}
				} else if i == 0 {
					// symbolic splice first: index constant within it is not decided by length
					break
				}
			}
			if x.aux[i] == 'e' {
				off = linAdd(off, linForm{c: big.NewInt(1)}, 1)
			} else {
				off = linAdd(off, toLin(mkLen(a)), 1)
			}
		}
	}
	if x.op == OConv && isString(x.typ) != isString(x.args[0].typ) && !isInt(x.args[0].typ) {
		return seqIndex(x.args[0], idx, et)
	}
	if x.op == OStruct {
		if i, ok := idx.i64(); ok && i >= 0 && i < int64(len(x.args)) {
			return x.args[i]
		}
	}
	if x.op == OSub {
		return seqIndex(x.args[0], fromLin(tInt, linAdd(toLin(x.args[1]), toLin(idx), 1)), et)
	}
	return mk(OIndex, et, "", x, idx)
}

// seqSub takes x[lo:hi] of an immutable sequence.
func seqSub(x, lo, hi *Val) *Val {
	n := mkLen(x)
	if z, ok := lo.i64(); ok && z == 0 && hi == n {
		return x
	}
	if lo == hi {
		if isString(x.typ) {
			return mkConst(constant.MakeString(""), x.typ)
		}
		return mkSeq(x.typ, nil, nil)
	}
	if s, ok := x.strConst(); ok {
		l, ok1 := lo.i64()
		h, ok2 := hi.i64()
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return mkConst(constant.MakeString(s[l:h]), x.typ)
		}
	}
	if x.op == OSeq {
		// find chunk boundaries equal to lo and hi
		bl, bh := -1, -1
		off := linForm{c: big.NewInt(0)}
		for i := 0; i <= len(x.args); i++ {
			ov := fromLin(tInt, off)
			if ov == lo && bl < 0 {
				bl = i
			}
			if ov == hi {
				bh = i
			}
			if i < len(x.args) {
				if x.aux[i] == 'e' {
					off = linAdd(off, linForm{c: big.NewInt(1)}, 1)
				} else {
					off = linAdd(off, toLin(mkLen(x.args[i])), 1)
				}
			}
		}
		if bl >= 0 && bh >= bl {
			r := mkSeq(x.typ, x.args[bl:bh], []byte(x.aux[bl:bh]))
			if len(r.args) == 1 && r.aux == "s" && types.Identical(r.args[0].typ, x.typ) {
				return r.args[0]
			}
			return r
		}
		// whole range inside the single splice
		if len(x.args) == 1 && x.aux == "s" {
			return seqSub(x.args[0], lo, hi)
		}
	}
	if x.op == OSub {
		nlo := fromLin(tInt, linAdd(toLin(x.args[1]), toLin(lo), 1))
		nhi := fromLin(tInt, linAdd(toLin(x.args[1]), toLin(hi), 1))
		return seqSub(x.args[0], nlo, nhi)
	}
	return mk(OSub, x.typ, "", x, lo, hi)
}

func mkConcat(t types.Type, a, b *Val) *Val {
	var args []*Val
	for _, x := range []*Val{a, b} {
		if x.op == OConcat {
			args = append(args, x.args...)
		} else {
			args = append(args, x)
		}
	}
	var out []*Val
	for _, x := range args {
		if s, ok := x.strConst(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if p, ok := out[len(out)-1].strConst(); ok {
					out[len(out)-1] = mkConst(constant.MakeString(p+s), tString)
					continue
				}
			}
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return mkConst(constant.MakeString(""), t)
	case 1:
		if types.Identical(out[0].typ, t) {
			return out[0]
		}
		if out[0].isConst() {
			return mkConst(out[0].cv(), t)
		}
	}
	return mk(OConcat, t, "", out...)
}

// ---------------------------------------------------------------- printing

func (v *Val) String() string { return v.str(0) }

func (v *Val) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range v.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch v.op {
	case OConst:
		if v.obj == nil {
			return "nil"
		}
		return v.cv().String()
	case OAtom:
		return v.aux
	case OBits:
		return bitsStr(v.bits)
	case OLin:
		l := v.obj.(linForm)
		s := ""
		for _, t := range l.terms {
			if t.coef.IsInt64() && t.coef.Int64() == 1 {
				s += "+" + t.v.str(d+1)
			} else {
				s += fmt.Sprintf("+%s*%s", t.coef, t.v.str(d+1))
			}
		}
		if l.c.Sign() != 0 {
			s += "+" + l.c.String()
		}
		return "(" + strings.TrimPrefix(s, "+") + ")"
	case OBitEq:
		var s []string
		l := v.obj.([]bitAsg)
		if len(l) > 6 {
			return fmt.Sprintf("bits[%s..%s]=%v", bitStr(l[0].b), bitStr(l[len(l)-1].b), l[0].v)
		}
		for _, x := range l {
			s = append(s, fmt.Sprintf("%s=%v", bitStr(x.b), x.v))
		}
		return "{" + strings.Join(s, "&") + "}"
	case OEq, OLt, OLe:
		return "(" + v.args[0].str(d+1) + " " + opNames[v.op] + " " + v.args[1].str(d+1) + ")"
	case ONot:
		return "!" + v.args[0].str(d+1)
	case OIface:
		return "iface(" + types.TypeString(v.args[0].typ, qual) + " " + v.args[0].str(d+1) + ")"
	case OAssert:
		return v.args[0].str(d+1) + ".(" + types.TypeString(v.typ, qual) + ")"
	case OSeq:
		var s []string
		for i, a := range v.args {
			if v.aux[i] == 's' {
				s = append(s, a.str(d+1)+"...")
			} else {
				s = append(s, a.str(d+1))
			}
		}
		return "[" + strings.Join(s, " ") + "]"
	case OFn, OGlobal, OObj:
		return v.aux
	case OConv:
		return types.TypeString(v.typ, qual) + "(" + as() + ")"
	case OFieldAddr:
		return "&" + v.args[0].str(d+1) + "." + v.aux
	case OLoad:
		s := v.args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OLen:
		return "len(" + as() + ")"
	}
	return opNames[v.op] + ":" + v.aux + "(" + as() + ")"
}

func qual(p *types.Package) string { return p.Name() }

func bitStr(b *Bit) string {
	switch b.k {
	case 0:
		return "0"
	case 1:
		return "1"
	case 2:
		return fmt.Sprintf("%s.%d", b.v.str(8), b.i)
	}
	var s []string
	for _, x := range b.a {
		s = append(s, bitStr(x))
	}
	return []string{"", "", "", "~", "^", "&", "|"}[b.k] + "(" + strings.Join(s, ",") + ")"
}

func bitsStr(bs []*Bit) string {
	// compress runs of consecutive source bits
	var parts []string
	for i := 0; i < len(bs); {
		b := bs[i]
		j := i + 1
		if b.k == 2 {
			for j < len(bs) && bs[j].k == 2 && bs[j].v == b.v && bs[j].i == b.i+(j-i) {
				j++
			}
			if j == i+1 {
				for j < len(bs) && bs[j] == b {
					j++
				}
				if j > i+1 {
					parts = append(parts, fmt.Sprintf("%s[%d]x%d", b.v.str(8), b.i, j-i))
					i = j
					continue
				}
			}
			parts = append(parts, fmt.Sprintf("%s[%d:%d]", b.v.str(8), b.i, b.i+(j-i)))
		} else {
			for j < len(bs) && bs[j] == b {
				j++
			}
			parts = append(parts, fmt.Sprintf("%sx%d", bitStr(b), j-i))
		}
		i = j
	}
	return "<" + strings.Join(parts, "|") + ">"
}

// pureFloat helpers -------------------------------------------------

func f64bits(f float64) *Val {
	return mkBig(types.Typ[types.Uint64], new(big.Int).SetUint64(math.Float64bits(f)))
}

var _ = ssa.NewProgram
