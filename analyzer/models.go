package main

// Models of the standard-library calls whose meaning the properties depend on.

import (
	"go/constant"
	"go/types"
	"math"
	"strings"
)

func (in *Interp) stdModel(st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	n := ci.name
	if strings.HasPrefix(n, "bytes.NewBuffer") || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "fmt.Fprint") {
		if r, ok := in.bufModel(st, ci); ok {
			return r, ok
		}
	}
	if r, ok := in.sortPrim(st, ci); ok {
		return r, ok
	}
	switch {
	case strings.HasPrefix(n, "(encoding/binary.bigEndian).") || strings.HasPrefix(n, "(encoding/binary.littleEndian)."):
		big := strings.Contains(n, "bigEndian")
		m := n[strings.Index(n, ").")+2:]
		w := 0
		switch {
		case strings.HasSuffix(m, "16"):
			w = 2
		case strings.HasSuffix(m, "32"):
			w = 4
		case strings.HasSuffix(m, "64"):
			w = 8
		}
		if w == 0 {
			return nil, false
		}
		pos := func(i int) int { // byte i of the buffer holds bits starting at
			if big {
				return (w - 1 - i) * 8
			}
			return i * 8
		}
		split := func(v *Val) []*Val {
			bs := toBits(v)
			r := make([]*Val, w)
			for i := range r {
				r[i] = fromBits(tByte, append([]*Bit(nil), bs[pos(i):pos(i)+8]...))
			}
			return r
		}
		switch {
		case strings.HasPrefix(m, "PutUint"):
			buf := ci.args[0]
			bs := split(ci.args[1])
			ks := []byte(strings.Repeat("e", w))
			if in.shortBuf(st, buf, w) {
				return []modelOut{{st: st, panic: "index out of range"}}, true
			}
			if buf.op == OView {
				in.setContent(st, mk(OView, buf.typ, "", buf.args[0], buf.args[1], mkInt(int64(w))), mkSeq(buf.typ, bs, ks))
			}
			return one()
		case strings.HasPrefix(m, "AppendUint"):
			bs := split(ci.args[1])
			vs := append([]*Val{in.content(st, ci.args[0])}, bs...)
			ks := append([]byte{'s'}, strings.Repeat("e", w)...)
			return one(mkSeq(ci.args[0].typ, vs, ks))
		case strings.HasPrefix(m, "Uint"):
			if in.shortBuf(st, ci.args[0], w) {
				return []modelOut{{st: st, panic: "index out of range"}}, true
			}
			c := in.content(st, ci.args[0])
			nb := make([]*Bit, 8*w)
			for i := 0; i < w; i++ {
				b := seqIndex(c, mkInt(int64(i)), tByte)
				copy(nb[pos(i):pos(i)+8], toBits(b))
			}
			return one(fromBits(ci.sig.Results().At(0).Type(), nb))
		}
	case n == "math.Float64bits":
		if f, ok := ci.args[0].floatConst(); ok {
			return one(f64bits(f))
		}
		if a := ci.args[0]; a.op == OCall && a.aux == "math.Float64frombits" {
			return one(a.args[0])
		}
		return one(mk(OCall, types.Typ[types.Uint64], n, ci.args[0]))
	case n == "math.Float64frombits":
		if a := ci.args[0]; a.op == OCall && a.aux == "math.Float64bits" {
			return one(a.args[0])
		}
		if c, ok := ci.args[0].intConst(); ok {
			f := math.Float64frombits(c.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return one(mkConst(constant.MakeFloat64(f), types.Typ[types.Float64]))
			}
		}
		return one(mk(OCall, types.Typ[types.Float64], n, ci.args[0]))
	case n == "strings.NewReader":
		return one(I.mk(&Val{op: OConv, typ: ci.sig.Results().At(0).Type(), aux: "mem", args: []*Val{ci.args[0]}}, "strings.Reader"))
	case n == "bytes.NewReader":
		return one(I.mk(&Val{op: OConv, typ: ci.sig.Results().At(0).Type(), aux: "mem", args: []*Val{in.content(st, ci.args[0])}}, "bytes.Reader"))
	case n == "(*strings.Reader).Read":
		if r := ci.recv; r.op == OConv && r.aux == "mem" && ci.args[0].op == OView {
			s := r.args[0]
			if mkLen(s) == mkLen(ci.args[0]) && st.ext["read:"+r.String()] == 0 {
				st.ext["read:"+r.String()]++
				in.setContent(st, ci.args[0], mkSeq(ci.args[0].typ, []*Val{s}, []byte{'s'}))
				return one(mkLen(s), mkNil(types.Universe.Lookup("error").Type()))
			}
		}
	case n == "errors.New":
		v := in.unknown(st, ci.sig.Results().At(0).Type(), "errors.New")
		st.facts.isnil[v] = false
		return one(v)
	case n == "fmt.Errorf":
		v := in.unknown(st, ci.sig.Results().At(0).Type(), "fmt.Errorf")
		st.facts.isnil[v] = false
		return one(v)
	}
	if r, ok := in.pureStd(st, ci); ok {
		return one(r...)
	}
	return nil, false
}

func (in *Interp) shortBuf(st *State, buf *Val, w int) bool {
	n, ok := st.facts.simpConst(mkLen(buf)).i64()
	return ok && n < int64(w)
}

// pureStd: functions of their arguments only, kept as terms; constants are folded.
func (in *Interp) pureStd(st *State, ci *callInfo) ([]*Val, bool) {
	if ci.sfn == nil || ci.sfn.Pkg == nil {
		return nil, false
	}
	path := ci.sfn.Pkg.Pkg.Path()
	switch path {
	case "strings", "strconv", "fmt", "unicode", "unicode/utf8", "math", "bytes", "encoding/base64", "reflect":
	default:
		return nil, false
	}
	if ci.recv != nil {
		return nil, false
	}
	switch ci.name {
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := ci.args[0].strConst(); ok {
			f := map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace}[ci.name]
			return []*Val{mkStr(f(s))}, true
		}
	case "bytes.Equal":
		text := func(v *Val) *Val { return in.conv(st, v, tString) }
		return []*Val{mkEq(text(ci.args[0]), text(ci.args[1]))}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		a, ok1 := ci.args[0].strConst()
		b, ok2 := ci.args[1].strConst()
		if ok1 && ok2 {
			f := map[string]func(a, b string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.EqualFold": strings.EqualFold}[ci.name]
			return []*Val{mkBool(f(a, b))}, true
		}
	}
	if path == "fmt" && !strings.HasPrefix(ci.name, "fmt.Sprint") {
		return nil, false
	}
	if path == "bytes" && strings.HasPrefix(ci.sfn.Name(), "New") || path == "encoding/base64" {
		return nil, false
	}
	if path == "strings" && strings.HasPrefix(ci.sfn.Name(), "New") {
		return nil, false
	}
	args := make([]*Val, len(ci.args))
	for i, a := range ci.args {
		args[i] = a
		if a.typ != nil && isSlice(a.typ) {
			args[i] = in.content(st, a)
		}
	}
	rs := ci.sig.Results()
	var out []*Val
	for i := 0; i < rs.Len(); i++ {
		aux := ci.name
		if rs.Len() > 1 {
			aux += "." + string(rune('0'+i))
		}
		out = append(out, mk(OCall, rs.At(i).Type(), aux, args...))
	}
	return out, true
}
