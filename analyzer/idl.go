package main

// IDL programs as the Thrift compiler hands them to the generator.

import (
	"sort"
	"strings"
)

func baseType(name string) *cobj {
	codes := map[string]int64{"void": 0, "string": 1, "binary": 1, "slist": 1, "bool": 2, "byte": 3, "i16": 4, "i32": 5, "i64": 6, "double": 7}
	o := &cobj{"t_base_type", map[string]any{"name": name, "is_base_type": true, "base": codes[name], "program": nil, "doc": ""}}
	switch name {
	case "void":
		o.f["is_void"] = true
	case "string":
		o.f["is_string"] = true
	case "binary":
		o.f["is_string"], o.f["is_binary"] = true, true
	case "bool":
		o.f["is_bool"] = true
	}
	return o
}

func newStructType(name string, xception bool) *cobj {
	o := &cobj{"t_struct", map[string]any{"name": name, "members": &cvec{}, "program": nil, "doc": ""}}
	if xception {
		o.f["is_xception"] = true
	} else {
		o.f["is_struct"] = true
	}
	return o
}

// idl builds one program.
type idl struct {
	prog                             *cobj
	enums, typedefs, structs, consts []*cobj
	services                         *cvec
}

func newIDL(name string) *idl {
	d := &idl{services: &cvec{}}
	d.prog = &cobj{"t_program", map[string]any{"name": name, "path": name + ".thrift", "includes": &cvec{}, "services": d.services, "include_prefix": "", "doc": ""}}
	return d
}

func (d *idl) enum(name string, vals ...any) *cobj {
	v := &cvec{}
	next := int64(-1)
	for i := 0; i < len(vals); i += 2 {
		x := &cobj{"t_enum_value", map[string]any{"name": vals[i], "doc": ""}}
		if n, ok := vals[i+1].(int); ok {
			next = int64(n)
			x.f["has_value"] = true
			x.f["value"] = next
		}
		v.v = append(v.v, x)
	}
	o := &cobj{"t_enum", map[string]any{"name": name, "is_enum": true, "constants": v, "program": d.prog, "doc": ""}}
	d.enums = append(d.enums, o)
	return o
}

func (d *idl) typedef(name string, t *cobj) *cobj {
	o := &cobj{"t_typedef", map[string]any{"name": name, "symbolic": name, "type": t, "is_typedef": true, "program": d.prog, "doc": ""}}
	d.typedefs = append(d.typedefs, o)
	return o
}

func idlField(id int, name string, t *cobj, req int64, def *cobj) *cobj {
	f := &cobj{"t_field", map[string]any{"key": int64(id), "name": name, "type": t, "req": req, "value": nil, "doc": ""}}
	if def != nil {
		f.f["value"] = def
	}
	return f
}

func (d *idl) structure(name string, xception bool, fields ...*cobj) *cobj {
	o := newStructType(name, xception)
	o.f["program"] = d.prog
	v := o.f["members"].(*cvec)
	for _, f := range fields {
		v.v = append(v.v, f)
	}
	d.structs = append(d.structs, o)
	return o
}

func idlContainer(kind string, t ...*cobj) *cobj {
	o := &cobj{"t_" + kind, map[string]any{"name": "", "is_" + kind: true, "is_container": true, "program": nil, "cpp_name": "", "doc": ""}}
	if kind == "map" {
		o.f["key_type"], o.f["val_type"] = t[0], t[1]
	} else {
		o.f["elem_type"] = t[0]
	}
	return o
}

func (d *idl) function(name string, ret *cobj, oneway bool, args, throws []*cobj) *cobj {
	a := newStructType(name+"_args", false)
	x := newStructType(name+"_result", false)
	for _, f := range args {
		a.f["members"].(*cvec).v = append(a.f["members"].(*cvec).v, f)
	}
	for _, f := range throws {
		x.f["members"].(*cvec).v = append(x.f["members"].(*cvec).v, f)
	}
	a.f["program"], x.f["program"] = d.prog, d.prog
	return &cobj{"t_function", map[string]any{"name": name, "returntype": ret, "is_oneway": oneway, "arglist": a, "xceptions": x, "doc": ""}}
}

func (d *idl) service(name string, extends *cobj, fns ...*cobj) *cobj {
	v := &cvec{}
	for _, f := range fns {
		v.v = append(v.v, f)
	}
	o := &cobj{"t_service", map[string]any{"name": name, "functions": v, "extends": nil, "is_service": true, "program": d.prog, "doc": ""}}
	if extends != nil {
		o.f["extends"] = extends
	}
	d.services.v = append(d.services.v, o)
	return o
}

func (d *idl) constant(name string, t, v *cobj) {
	d.consts = append(d.consts, &cobj{"t_const", map[string]any{"name": name, "type": t, "value": v, "doc": ""}})
}

func cvInt(i int64) *cobj {
	return &cobj{"t_const_value", map[string]any{"type": int64(0), "integer": i, "double": float64(0)}}
}
func cvDouble(f float64) *cobj {
	return &cobj{"t_const_value", map[string]any{"type": int64(1), "double": f, "integer": int64(0)}}
}
func cvString(s string) *cobj {
	return &cobj{"t_const_value", map[string]any{"type": int64(2), "string": s}}
}
func cvList(v ...*cobj) *cobj {
	l := &cvec{}
	for _, x := range v {
		l.v = append(l.v, x)
	}
	return &cobj{"t_const_value", map[string]any{"type": int64(4), "list": l}}
}
func cvMap(kv ...*cobj) *cobj {
	m := &cmap{}
	for i := 0; i+1 < len(kv); i += 2 {
		m.v = append(m.v, &cpair{kv[i], kv[i+1]})
	}
	return &cobj{"t_const_value", map[string]any{"type": int64(3), "map": m}}
}

// emit is t_generator::generate_program for the Go generator.
func (d *idl) emit(p *cprog) (files map[string]string, err any) {
	g := newGen(p, d.prog)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case cUnsup, cThrow, cAbort:
				files, err = nil, r
			default:
				panic(r)
			}
		}
	}()
	g.method("init_generator")
	for _, x := range d.enums {
		g.method("generate_enum", x)
	}
	for _, x := range d.typedefs {
		g.method("generate_typedef", x)
	}
	for _, x := range d.structs {
		if x.f["is_xception"] == true {
			g.method("generate_xception", x)
		} else {
			g.method("generate_struct", x)
		}
	}
	for _, x := range d.consts {
		g.method("generate_const", x)
	}
	for _, s := range d.services.v {
		g.this["service_name_"].v = s.(*cobj).f["name"]
		g.method("generate_service", s)
	}
	g.method("close_generator")
	files = map[string]string{}
	for n, s := range g.files {
		files[n] = s.b.String()
	}
	return files, nil
}

func sortedNames(m map[string]string) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// methodsUsed counts the generator's methods.
func (g *cprog) methodNames() []string {
	var out []string
	for n := range g.byName {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

var _ = strings.TrimSpace
