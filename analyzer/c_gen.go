package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
)

// the types of the IDL, as functions of the program that declares what they need
type idlType struct {
	name string
	make func(d *idl) *cobj
}

var idlBase = []string{"bool", "byte", "i16", "i32", "i64", "double", "string", "binary"}

func idlEnum(d *idl) *cobj {
	for _, e := range d.enums {
		if e.f["name"] == "Colour" {
			return e
		}
	}
	return d.enum("Colour", "Red", nil, "green", 4, "BLUE", nil)
}

func idlInner(d *idl) *cobj {
	for _, e := range d.structs {
		if e.f["name"] == "Inner" {
			return e
		}
	}
	return d.structure("Inner", false, idlField(1, "number", baseType("i32"), 2, nil))
}

func idlTypes() []idlType {
	var out []idlType
	add := func(name string, f func(d *idl) *cobj) { out = append(out, idlType{name, f}) }
	for _, b := range idlBase {
		add(b, func(*idl) *cobj { return baseType(b) })
	}
	add("enum", idlEnum)
	add("struct", idlInner)
	scalars := append([]idlType(nil), out...)
	for _, t := range scalars {
		add("typedef of "+t.name, func(d *idl) *cobj { return d.typedef("my_alias", t.make(d)) })
	}
	for _, t := range scalars {
		add("list of "+t.name, func(d *idl) *cobj { return idlContainer("list", t.make(d)) })
		if t.name != "struct" && t.name != "binary" {
			add("set of "+t.name, func(d *idl) *cobj { return idlContainer("set", t.make(d)) })
			add("map from "+t.name, func(d *idl) *cobj { return idlContainer("map", t.make(d), baseType("i32")) })
		}
		add("map to "+t.name, func(d *idl) *cobj { return idlContainer("map", baseType("string"), t.make(d)) })
	}
	add("typedef of list", func(d *idl) *cobj { return d.typedef("my_list", idlContainer("list", baseType("i32"))) })
	add("list of typedef of i32", func(d *idl) *cobj { return idlContainer("list", d.typedef("my_alias", baseType("i32"))) })
	add("list of list", func(d *idl) *cobj { return idlContainer("list", idlContainer("list", baseType("i32"))) })
	add("list of set", func(d *idl) *cobj { return idlContainer("list", idlContainer("set", baseType("i32"))) })
	add("list of map", func(d *idl) *cobj {
		return idlContainer("list", idlContainer("map", baseType("string"), idlInner(d)))
	})
	add("map to list", func(d *idl) *cobj {
		return idlContainer("map", baseType("i32"), idlContainer("list", baseType("string")))
	})
	return out
}

// checkGo type-checks one emitted package; files by name
func (p *Program) checkGo(path string, files map[string]string, imp types.Importer) (*types.Package, []*ast.File, *types.Info, []error) {
	var errs []error
	var asts []*ast.File
	for _, n := range sortedNames(files) {
		f, err := parser.ParseFile(p.fset, n, files[n], 0)
		if err != nil {
			errs = append(errs, err)
			continue
		}
		asts = append(asts, f)
	}
	if len(errs) > 0 {
		return nil, nil, nil, errs
	}
	pkg := types.NewPackage(path, asts[0].Name.Name)
	info := newInfo()
	tc := &types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) { errs = append(errs, err) }}
	types.NewChecker(tc, p.fset, pkg, info).Files(asts)
	pkg.MarkComplete()
	return pkg, asts, info, errs
}

// genImporter finds the library and the emitted packages.
type genImporter struct {
	p   *Program
	own map[string]*types.Package
}

func (g *genImporter) Import(path string) (*types.Package, error) {
	if path == "thrift" {
		return g.p.Thrift.Pkg, nil
	}
	if q := g.own[path]; q != nil {
		return q, nil
	}
	return g.p.imp.Import(path)
}

// splitGo sorts the emitted files into the package and the commands.
func splitGo(files map[string]string) (pkg map[string]string, cmds []map[string]string) {
	pkg = map[string]string{}
	for _, n := range sortedNames(files) {
		if strings.HasSuffix(n, "-remote.go") {
			cmds = append(cmds, map[string]string{n: files[n]})
			continue
		}
		pkg[n] = files[n]
	}
	return
}

// excerpt shows the emitted line an error is about.
func excerpt(fset *token.FileSet, files map[string]string, err error) string {
	e, ok := err.(types.Error)
	if !ok {
		return err.Error()
	}
	pos := fset.Position(e.Pos)
	lines := strings.Split(files[pos.Filename], "\n")
	l := ""
	if pos.Line-1 < len(lines) && pos.Line > 0 {
		l = strings.TrimSpace(lines[pos.Line-1])
	}
	return fmt.Sprintf("%s: %s (emitted: %s)", pos.Filename, e.Msg, l)
}

func (c *Ctx) genShape(g *cprog, name string, build func(d *idl)) {
	d := newIDL("prog")
	build(d)
	files, e := d.emit(g)
	switch x := e.(type) {
	case nil:
	case cUnsup:
		genSkip(c, name, x.msg)
		return
	case cThrow:
		c.ob("emits", name, false, "the generator refuses this program: %q", x.msg)
		return
	case cAbort:
		c.ob("emits", name, false, "the generator is undefined here: %s", x.msg)
		return
	}
	pkg, cmds := splitGo(files)
	imp := &genImporter{c.prog, map[string]*types.Package{}}
	q, _, _, errs := c.prog.checkGo("prog", pkg, imp)
	for i, err := range errs {
		if i < 3 {
			c.ob("compiles", name, false, "%s", excerpt(c.prog.fset, pkg, err))
		}
	}
	if len(errs) > 0 {
		return
	}
	c.ob("compiles", name, true, "%d files", len(pkg))
	imp.own["prog"] = q
	for _, m := range cmds {
		_, _, _, errs := c.prog.checkGo("main", m, imp)
		for i, err := range errs {
			if i < 3 {
				c.ob("command compiles", name, false, "%s", excerpt(c.prog.fset, m, err))
			}
		}
		if len(errs) == 0 {
			c.ob("command compiles", name, true, "")
		}
	}
}

func init() {
	checks["C31"] = &check{run: runC31, min: 1,
		rule: "the generator's methods, evaluated over clang's typed syntax tree of t_go_generator.cc for one IDL program of each kind, give Go that go/types accepts together with the library",
		expl: "one obligation per program and emitted package or command: the first type error, an unresolved name and an unused import included, is the violation",
		asm:  []string{"the parse tree classes behave as in Apache Thrift's compiler (their stub is in cppstub)", "names are distinct after capitalisation and are not keywords of Thrift's IDL", "programs do not include other programs", "a construct of C++ the evaluator does not know makes the program a note, not a violation"}}
}

func runC31(c *Ctx) {
	g, err := loadGenerator(c.prog.repo, c.verif)
	if err != nil {
		genUnread(c, err)
		return
	}
	for _, sh := range idlShapes() {
		c.genShape(g, sh.name, sh.build)
	}
}

// genUnread notes that the generator could not be read at all.
func genUnread(c *Ctx, err error) {
	c.notes = append(c.notes, "the generator is not followed, nothing is decided: "+err.Error())
	c.extra["generator_read"] = false
	c.ob("anchor", "t_go_generator.cc", true, "")
}

// genSkip notes that a program could not be followed.
func genSkip(c *Ctx, name string, err any) {
	c.notes = append(c.notes, fmt.Sprintf("not followed: %s: %v", name, err))
	n, _ := c.extra["programs_not_followed"].(int)
	c.extra["programs_not_followed"] = n + 1
}

type idlShape struct {
	name  string
	build func(d *idl)
}

func idlDefault(t *cobj) *cobj {
	switch x := trueType(t).(*cobj); {
	case x.f["is_enum"] == true:
		return cvInt(4)
	case x.f["is_list"] == true:
		return cvList(idlDefault(x.f["elem_type"].(*cobj)), idlDefault(x.f["elem_type"].(*cobj)))
	case x.f["is_set"] == true:
		return cvList(idlDefault(x.f["elem_type"].(*cobj)))
	case x.f["is_map"] == true:
		return cvMap(idlDefault(x.f["key_type"].(*cobj)), idlDefault(x.f["val_type"].(*cobj)))
	case x.f["is_struct"] == true:
		return cvMap(cvString("number"), cvInt(7))
	case x.f["name"] == "double":
		return cvDouble(3.141592653589793)
	case x.f["name"] == "i64":
		return cvInt(-1234567890123)
	case x.f["name"] == "i32":
		return cvInt(-70000)
	case x.f["name"] == "i16":
		return cvInt(-300)
	case x.f["name"] == "byte":
		return cvInt(100)
	case x.f["name"] == "string" || x.f["name"] == "binary":
		return cvString("a \"text\"\n")
	}
	return cvInt(1)
}

func idlShapes() (out []idlShape) {
	add := func(name string, build func(d *idl)) { out = append(out, idlShape{name, build}) }
	for _, t := range idlTypes() {
		add("fields: "+t.name, func(d *idl) {
			x := t.make(d)
			d.structure("Outer", false, idlField(1, "plain", x, 2, nil), idlField(2, "needed", x, 0, nil), idlField(4, "maybe_set", x, 1, nil))
			d.structure("Oops", true, idlField(1, "plain", x, 2, nil), idlField(3, "maybe_set", x, 1, nil))
		})
		add("service: "+t.name, func(d *idl) {
			x := t.make(d)
			fail := d.structure("Failure", true, idlField(1, "why", baseType("string"), 2, nil))
			d.service("Calc", nil,
				d.function("echo_it", x, false, []*cobj{idlField(1, "arg_one", x, 2, nil)}, nil),
				d.function("throwing", x, false, []*cobj{idlField(1, "a", x, 2, nil), idlField(2, "b", x, 2, nil)}, []*cobj{idlField(1, "failed", fail, 2, nil)}),
				d.function("nothing", baseType("void"), false, []*cobj{idlField(1, "a", x, 2, nil)}, nil),
				d.function("nothingThrows", baseType("void"), false, []*cobj{idlField(1, "a", x, 2, nil)}, []*cobj{idlField(1, "failed", fail, 2, nil), idlField(2, "lost", fail, 2, nil)}),
				d.function("fireAndForget", baseType("void"), true, []*cobj{idlField(1, "a", x, 2, nil)}, nil),
				d.function("noargs", x, false, nil, nil))
		})
		add("defaults: "+t.name, func(d *idl) {
			x := t.make(d)
			d.structure("Outer", false, idlField(1, "plain", x, 2, idlDefault(x)), idlField(2, "needed", x, 0, idlDefault(x)), idlField(4, "maybe_set", x, 1, idlDefault(x)))
		})
		add("constant: "+t.name, func(d *idl) {
			x := t.make(d)
			d.constant("some_value", x, idlDefault(x))
		})
	}
	i32, str := baseType("i32"), baseType("string")
	add("default of a double without a point", func(d *idl) {
		d.structure("Outer", false, idlField(1, "plain", baseType("double"), 2, cvInt(3)), idlField(2, "needed", baseType("double"), 0, cvInt(3)), idlField(4, "maybe_set", baseType("double"), 1, cvInt(3)))
	})
	add("enum with two names for a value", func(d *idl) { d.enum("Colour", "Red", 1, "Crimson", 1, "Blue", nil) })
	add("enum with gaps", func(d *idl) { d.enum("Colour", "Red", -5, "Green", nil, "Blue", 70000, "a_b", 0) })
	add("enum without values", func(d *idl) { d.enum("Colour") })
	add("empty struct", func(d *idl) { d.structure("Empty", false) })
	add("empty service", func(d *idl) { d.service("Nothing", nil) })
	add("ids out of order", func(d *idl) {
		d.structure("Mixed", false, idlField(7, "seven", i32, 2, nil), idlField(2, "two", str, 1, nil), idlField(30000, "many", i32, 2, nil))
	})
	add("fields without ids", func(d *idl) {
		d.structure("NoIds", false, idlField(-1, "one", i32, 2, nil), idlField(-2, "two", str, 1, nil))
	})
	add("arguments without ids", func(d *idl) {
		d.service("NoIds", nil, d.function("call", i32, false, []*cobj{idlField(-1, "one", i32, 2, nil), idlField(-2, "two", str, 2, nil)}, nil))
	})
	add("names", func(d *idl) {
		var f []*cobj
		for i, n := range []string{"value", "some_value", "a", "x_", "x1", "x_1", "x__y", "ABC", "a_b", "type", "map"} {
			f = append(f, idlField(i+1, n, i32, 1, nil))
		}
		d.structure("names_of_fields", false, f...)
	})
	for _, n := range idlNames {
		add("name "+n, func(d *idl) {
			fail := d.structure(n+"_failure", true, idlField(1, n, str, 2, nil))
			x := d.structure(n+"_x", false, idlField(1, n, i32, 2, nil), idlField(2, "opt_"+n, i32, 1, nil), idlField(3, n+"_2", idlContainer("list", i32), 1, nil))
			d.enum(n+"_enum", n, nil, n+"_b", 3)
			d.typedef(n+"_alias", i32)
			d.service(n+"_service", nil,
				d.function(n, i32, false, []*cobj{idlField(1, n, i32, 2, nil)}, nil),
				d.function(n+"_2", x, false, []*cobj{idlField(1, n, x, 2, nil)}, []*cobj{idlField(1, n+"_", fail, 2, nil)}),
				d.function("try_"+n, baseType("void"), false, nil, []*cobj{idlField(1, n, fail, 2, nil)}))
		})
	}
	add("service extends", func(d *idl) {
		b := d.service("Base", nil, d.function("ping", i32, false, nil, nil))
		d.service("Derived", b, d.function("pong", i32, false, nil, nil))
	})
	return
}

// names as they appear in IDL: plain, with underscores and digits, in either
// case, and the words of Go
var idlNames = []string{"value", "some_value", "Value", "someValue", "a", "x_", "x1", "x_1", "x__y", "ABC", "a_b_c",
	"type", "Type", "map", "func", "range", "error", "len", "package", "default", "select", "interface"}
