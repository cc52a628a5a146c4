package main

import (
	"fmt"
	"os"
	"path/filepath"
)

func goldenIDL() *idl {
	d := newIDL("simple")
	u := d.enum("UndefinedValues", "One", nil, "Two", nil, "Three", nil)
	v := d.enum("DefinedValues", "One", 1, "Two", 2, "Three", 3)
	h := d.enum("HeterogeneousValues", "One", nil, "Two", 2, "Three", nil, "Four", 4)
	s := d.structure("ContainerOfEnums", false,
		idlField(1, "first", u, 2, nil), idlField(2, "second", v, 2, nil), idlField(3, "third", h, 2, nil),
		idlField(4, "optional_fourth", u, 1, nil), idlField(5, "optional_fifth", v, 1, nil), idlField(6, "optional_sixth", h, 1, nil),
		idlField(7, "default_seventh", u, 1, cvInt(0)), idlField(8, "default_eighth", v, 1, cvInt(1)), idlField(9, "default_nineth", h, 1, cvInt(0)))
	d.service("ContainerOfEnumsTestService", nil, d.function("echo", s, false, []*cobj{idlField(1, "message", s, 2, nil)}, nil))
	return d
}

func genDebug(repo, verif, out string) {
	p, err := loadGenerator(repo, verif)
	if err != nil {
		fmt.Println(err)
		return
	}
	files, e := goldenIDL().emit(p)
	fmt.Println(e)
	for _, n := range sortedNames(files) {
		os.MkdirAll(filepath.Dir(filepath.Join(out, n)), 0o755)
		os.WriteFile(filepath.Join(out, n), []byte(files[n]), 0o644)
	}
}
