package main

import "encoding/json"

func init() {
	checks["C18"] = &check{run: runC18, min: 150,
		rule: "every write call of both JSON protocols emits exactly its piece of the document: the separator its place in the enclosing list or object calls for, the value as JSON text, the brackets of containers",
		expl: "Abstract interpretation of the Write methods of TSimpleJSONProtocol and TJSONProtocol over call sequences: every operation in every kind of place (top level, list, set, map key and value, first and later field, message, nested), and chains nested 60 deep. Arguments are symbols, the text expected is a term; the specification is a machine over the places of JSON items.",
		asm:  []string{"json.Marshal of a string, strconv and encoding/base64 behave as documented", "calls are made in protocol order"},
	}
}

func jsonMarshal(s string) (string, error) { b, err := json.Marshal(s); return string(b), err }

func (c *Ctx) newJSON(rule, ctor string) (*wire, *protoState) {
	w := c.newWire(rule)
	w.in.cfg.Coalesce = true
	w.in.cfg.Unroll = 90
	w.in.cfg.Recur = 8
	w.hook = w.jsonHook
	return w, w.construct(ctor)
}

func (w *wire) jsonHook(in *Interp, st *State, ci *callInfo) ([]modelOut, bool) {
	if r, ok := w.jsonStd(in, st, ci); ok {
		return r, ok
	}
	return w.jsonIn(in, st, ci)
}

// writeDoc decides the write calls of one document.
func (w *wire) writeDoc(key string, ps *protoState, d *jdoc) {
	var steps []step
	for _, s := range d.steps {
		if s.wm != "" {
			steps = append(steps, call(s.wm, s.wargs...))
		}
	}
	ss := w.play(ps, ps.st, key, steps...)
	w.sessions(key, "write", ss, func(r *sd) {
		for _, s := range d.steps {
			if s.wm == "" {
				continue
			}
			r.step()
			for _, p := range s.parts {
				r.wireText(p)
			}
		}
	})
}

var jsonCtors = []struct {
	name string
	full bool
}{{"NewTSimpleJSONProtocol", false}, {"NewTJSONProtocol", true}}

func runC18(c *Ctx) {
	for _, k := range jsonCtors {
		w, ps := c.newJSON("json text written", k.name)
		if ps == nil {
			continue
		}
		w.noFail = true
		for _, p := range c.jplaces() {
			for _, op := range append(append([]string(nil), scalarOps...), compositeOps...) {
				d := p.after(p.before(newDoc(k.full)).op(c, op))
				w.writeDoc(k.name[4:]+" "+op+" in "+p.name, ps, d)
			}
		}
		docs := c.typeDocs(k.full)
		for _, n := range sortedKeys(docs) {
			w.writeDoc(k.name[4:]+" "+n, ps, docs[n])
		}
		// types that are written like another type
		for _, e := range [][2]string{{"BINARY", "str"}, {"ENUM", "i32"}, {"UTF16", "str"}} {
			w.writeDoc(k.name[4:]+" field of type "+e[0], ps, newDoc(k.full).structBegin().field(c, e[0], e[1]).scalar("i32").fieldEnd().stop(c).structEnd())
		}
		// successive messages
		d := newDoc(k.full)
		for i := 0; i < 3; i++ {
			d.message(c).composite(c, "struct").end("Message")
		}
		w.writeDoc(k.name[4:]+" successive messages", ps, d)
		// deep nesting
		d = newDoc(k.full)
		var ends []func()
		for i := 0; i < 20; i++ {
			d.list(c, "List")
			ends = append(ends, func() { d.end("List") })
			d.structBegin().field(c, "MAP", "map")
			ends = append(ends, func() { d.fieldEnd().structEnd() })
			d.mapBegin(c).scalar("string")
			ends = append(ends, func() { d.end("Map") })
		}
		d.scalar("i64")
		for i := len(ends) - 1; i >= 0; i-- {
			ends[i]()
		}
		w.writeDoc(k.name[4:]+" deep nesting", ps, d)
	}
}
