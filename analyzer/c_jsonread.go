package main

import (
	"go/types"
	"math/big"
	"strings"
)

// The buffered reader of a JSON protocol over a text of which a part has
// arrived. What has arrived is a sequence term; a call that needs more than that
// either waits (a violation where the item is complete) or sees the end of file.

func rkey(p *Val) *Val  { return mk(OFieldAddr, types.NewPointer(tInt), "reader-rest", p) }
func rlast(p *Val) *Val { return mk(OFieldAddr, types.NewPointer(tInt), "reader-last", p) }

// jsonRest is where the text not yet taken is kept (one reader per protocol).
func jsonRest(st *State) (*Val, *Val) {
	for k, v := range st.heap {
		if k.op == OFieldAddr && k.aux == "reader-rest" {
			return k, v
		}
	}
	return nil, nil
}

func (w *wire) jsonIn(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	one := func(v ...*Val) ([]modelOut, bool) { return []modelOut{{st: st, res: v}}, true }
	bs := types.NewSlice(tByte)
	empty := mkSeq(bs, nil, nil)
	switch ci.name {
	case "bufio.NewReader", "bufio.NewReaderSize":
		if !w.isTrans(ci.args[0]) {
			return nil, false
		}
		o := in.newObj(st, ci.sig.Results().At(0).Type(), "reader")
		st.heap[rkey(o)] = empty
		return one(o)
	case "io.ReadFull", "io.ReadAtLeast":
		r := unwrap(ci.args[0])
		if _, ok := st.heap[rkey(r)]; ok {
			return w.takeFull(in, st, ci, r, ci.args[1]), true
		}
		return nil, false
	}
	if ci.recv == nil || !strings.HasPrefix(ci.name, "(*bufio.Reader).") {
		return nil, false
	}
	p := ci.recv
	rest, ok := st.heap[rkey(p)]
	if !ok {
		return nil, false
	}
	eof := in.extVar(st, "io", "EOF")
	// front is the number of single bytes at the start of the text
	front := 0
	for front < len(rest.args) && rest.aux[front] == 'e' {
		front++
	}
	// more: the call needs bytes that have not arrived. zero are the results
	// besides the error.
	more := func(s *State, zero ...*Val) []modelOut {
		if s.ext["eof"] == 0 {
			return []modelOut{{st: s, panic: "waits for text beyond the item"}}
		}
		return []modelOut{{st: s, res: append(zero, eof)}}
	}
	// fails: reading from the transport may fail while fewer than n bytes are buffered
	fails := func(n int, zero ...*Val) []modelOut {
		if w.noFail || n <= st.ext["peek"] {
			return nil
		}
		f := st.clone()
		e := w.readErr(in, f)
		w.event(f, ci, "read-fail", nil, e)
		return []modelOut{{st: f, res: append(zero, e)}}
	}
	take := func(s *State, n int) {
		s.heap[rkey(p)] = mkSeq(bs, rest.args[n:], []byte(rest.aux[n:]))
		if s.ext["peek"] -= n; s.ext["peek"] < 0 {
			s.ext["peek"] = 0
		}
		s.heap[rlast(p)] = mkNil(bs)
		if n > 0 && rest.aux[n-1] == 'e' {
			s.heap[rlast(p)] = rest.args[n-1]
		}
	}
	view := func(s *State, c *Val) *Val {
		o := in.newObj(s, types.NewPointer(bs), "buffered")
		s.heap[contentKey(o)] = c
		return mk(OView, bs, "", o, mkInt(0), mkLen(c))
	}
	switch m := strings.TrimPrefix(ci.name, "(*bufio.Reader)."); m {
	case "Peek", "Discard":
		n64, ok := st.facts.simpConst(ci.args[0]).i64()
		if !ok || n64 < 0 || n64 > 64 {
			return nil, false
		}
		n := int(n64)
		res := func(s *State, k int) *Val {
			if m == "Discard" {
				take(s, k)
				return mkInt(int64(k))
			}
			return view(s, mkSeq(bs, rest.args[:k], []byte(rest.aux[:k])))
		}
		var outs []modelOut
		if n > st.ext["peek"] {
			for _, f := range fails(n, mkNil(bs)) {
				k := st.ext["peek"]
				if k > front {
					k = front
				}
				f.res[0] = res(f.st, k)
				outs = append(outs, f)
			}
		}
		st.heap[rlast(p)] = mkNil(bs)
		if n > front {
			if front < len(rest.args) {
				return nil, false // looks into text of unknown length
			}
			if st.ext["eof"] == 0 {
				return append(outs, more(st)...), true
			}
			st.ext["peek"] = front
			return append(outs, modelOut{st: st, res: []*Val{res(st, front), eof}}), true
		}
		if n > st.ext["peek"] {
			st.ext["peek"] = n
		}
		return append(outs, modelOut{st: st, res: []*Val{res(st, n), mkNil(tError)}}), true
	case "ReadByte":
		outs := fails(1, mkIntT(tByte, 0))
		if front == 0 {
			if len(rest.args) > 0 {
				return nil, false
			}
			return append(outs, more(st, mkIntT(tByte, 0))...), true
		}
		take(st, 1)
		return append(outs, modelOut{st: st, res: []*Val{rest.args[0], mkNil(tError)}}), true
	case "ReadRune":
		outs := fails(1, mkIntT(types.Typ[types.Int32], 0), mkInt(0))
		if front == 0 {
			if len(rest.args) > 0 {
				return nil, false
			}
			return append(outs, more(st, mkIntT(types.Typ[types.Int32], 0), mkInt(0))...), true
		}
		if st.facts.eval(mkLtInt(rest.args[0], mkIntT(tByte, 0x80))) <= 0 {
			return nil, false
		}
		take(st, 1)
		return append(outs, modelOut{st: st, res: []*Val{convert(rest.args[0], types.Typ[types.Int32]), mkInt(1), mkNil(tError)}}), true
	case "UnreadByte", "UnreadRune":
		last := st.heap[rlast(p)]
		if last == nil || last.isNil() {
			return one(newErr(st, tError, "invalid-unread"))
		}
		st.heap[rkey(p)] = mkSeq(bs, []*Val{last, rest}, []byte("es"))
		st.ext["peek"]++
		st.heap[rlast(p)] = mkNil(bs)
		return one(mkNil(tError))
	case "Buffered":
		// at least what was looked at; the rest depends on how the text arrives
		v := atom(tInt, st.label("buffered"))
		st.facts.refine(v, Range{big.NewInt(int64(st.ext["peek"])), big.NewInt(1 << 20)})
		return one(v)
	case "ReadString", "ReadBytes", "ReadSlice", "ReadLine":
		if m == "ReadLine" {
			return nil, false
		}
		var outs []modelOut
		zero := func() *Val {
			if m == "ReadString" {
				return mkStr("")
			}
			return mkNil(bs)
		}
		result := func(s *State, c *Val) *Val {
			if m == "ReadString" {
				return mk(OConv, tString, "", c)
			}
			return view(s, c)
		}
		cur := st
		failed := false
		for i := range rest.args {
			x := rest.args[i]
			if !failed && i >= cur.ext["peek"] {
				failed = true
				if !w.noFail {
					f := cur.clone()
					e := w.readErr(in, f)
					w.event(f, ci, "read-fail", nil, e)
					take(f, i)
					outs = append(outs, modelOut{st: f, res: []*Val{result(f, mkSeq(bs, rest.args[:i], []byte(rest.aux[:i]))), e}})
				}
			}
			if rest.aux[i] != 'e' {
				if w.without(x, ci.args[0]) {
					continue
				}
				return nil, false
			}
			eq := mkEq(x, ci.args[0])
			switch t := cur.facts.eval(eq); {
			case t < 0:
				continue
			case t == 0:
				no := cur.clone()
				if no.facts.assume(eq, false) {
					if cur.facts.assume(eq, true) {
						take(cur, i+1)
						outs = append(outs, modelOut{st: cur, res: []*Val{result(cur, mkSeq(bs, rest.args[:i+1], []byte(rest.aux[:i+1]))), mkNil(tError)}})
					}
					cur = no
					continue
				}
			}
			take(cur, i+1)
			return append(outs, modelOut{st: cur, res: []*Val{result(cur, mkSeq(bs, rest.args[:i+1], []byte(rest.aux[:i+1]))), mkNil(tError)}}), true
		}
		if !failed && !w.noFail {
			f := cur.clone()
			e := w.readErr(in, f)
			w.event(f, ci, "read-fail", nil, e)
			take(f, len(rest.args))
			outs = append(outs, modelOut{st: f, res: []*Val{result(f, rest), e}})
		}
		if cur.ext["eof"] == 0 {
			return append(outs, modelOut{st: cur, panic: "waits for text beyond the item"}), true
		}
		take(cur, len(rest.args))
		_ = zero
		return append(outs, modelOut{st: cur, res: []*Val{result(cur, rest), eof}}), true
	case "Read":
		buf := ci.args[0]
		n64, ok := st.facts.simpConst(mkLen(buf)).i64()
		if !ok || n64 > 64 {
			return nil, false
		}
		n := int(n64)
		if n == 0 {
			return one(mkInt(0), mkNil(tError))
		}
		outs := fails(1, mkInt(0))
		if front == 0 {
			if len(rest.args) > 0 {
				return nil, false
			}
			return append(outs, more(st, mkInt(0))...), true
		}
		hi := n
		if hi > front {
			hi = front
			if front < len(rest.args) {
				return nil, false
			}
		}
		lo := st.ext["peek"]
		if lo > hi {
			lo = hi
		}
		if lo < 1 {
			lo = 1
		}
		give := func(s *State, k int) {
			take(s, k)
			if buf.op == OView {
				in.setContent(s, mk(OView, buf.typ, "", buf.args[0], buf.args[1], mkInt(int64(k))), mkSeq(bs, rest.args[:k], []byte(rest.aux[:k])))
			}
			outs = append(outs, modelOut{st: s, res: []*Val{mkInt(int64(k)), mkNil(tError)}})
		}
		if lo < hi {
			give(st.clone(), lo)
		}
		give(st, hi)
		return outs, true
	}
	return nil, false
}

// takeFull: io.ReadFull from the reader.
func (w *wire) takeFull(in *Interp, st *State, ci *callInfo, p, buf *Val) []modelOut {
	bs := types.NewSlice(tByte)
	rest := st.heap[rkey(p)]
	n64, ok := st.facts.simpConst(mkLen(buf)).i64()
	if !ok || n64 > 64 {
		return []modelOut{{st: st, panic: "ReadFull of unknown length"}}
	}
	n := int(n64)
	var outs []modelOut
	if n > st.ext["peek"] && !w.noFail {
		f := st.clone()
		e := w.readErr(in, f)
		w.event(f, ci, "read-fail", nil, e)
		cnt := atom(tInt, f.label("short-count"))
		f.facts.refine(cnt, Range{big.NewInt(0), big.NewInt(n64)})
		f.heap[rlast(p)] = mkNil(bs)
		outs = append(outs, modelOut{st: f, res: []*Val{cnt, e}})
	}
	k := 0
	for k < n && k < len(rest.args) && rest.aux[k] == 'e' {
		k++
	}
	if k < n && k < len(rest.args) {
		return []modelOut{{st: st, panic: "reads into text of unknown length"}}
	}
	if k < n && st.ext["eof"] == 0 {
		return append(outs, modelOut{st: st, panic: "waits for text beyond the item"})
	}
	st.heap[rkey(p)] = mkSeq(bs, rest.args[k:], []byte(rest.aux[k:]))
	if st.ext["peek"] -= k; st.ext["peek"] < 0 {
		st.ext["peek"] = 0
	}
	st.heap[rlast(p)] = mkNil(bs)
	if k > 0 {
		st.heap[rlast(p)] = rest.args[k-1]
	}
	if buf.op == OView {
		in.setContent(st, mk(OView, buf.typ, "", buf.args[0], buf.args[1], mkInt(int64(k))), mkSeq(bs, rest.args[:k], []byte(rest.aux[:k])))
	}
	if k < n {
		name := "ErrUnexpectedEOF"
		if k == 0 {
			name = "EOF"
		}
		return append(outs, modelOut{st: st, res: []*Val{mkInt(int64(k)), in.extVar(st, "io", name)}})
	}
	return append(outs, modelOut{st: st, res: []*Val{mkInt(n64), mkNil(tError)}})
}

// without: a text of unknown length that does not contain the byte.
func (w *wire) without(x, b *Val) bool {
	k, ok := b.i64()
	if !ok || x.op != OAtom {
		return false
	}
	switch {
	case strings.HasPrefix(x.aux, "plain:"):
		return k == '"' || k == '\\'
	case strings.HasPrefix(x.aux, "base64:"):
		return !strings.ContainsRune(base64Chars, rune(k))
	}
	return false
}

const base64Chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="

// readErr is a failure of the transport other than the end of the input.
func (w *wire) readErr(in *Interp, st *State) *Val {
	e := newErr(st, tError, "read-error")
	st.facts.assume(mkEq(e, in.extVar(st, "io", "EOF")), false)
	return e
}
