package main

import (
	"go/ast"
	"go/parser"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Plain Go equivalents of standard library functions over text, interpreted in
// place of them when the text is known byte by byte (each byte may be unknown).
const shimSource = `package vshim

func vlen(x any) int
func vswap(x any, i, j int)
func sort_SliceStable(x any, less func(i, j int) bool) {
	n := vlen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vswap(x, j, j-1)
		}
	}
}
func sort_Slice(x any, less func(i, j int) bool) { sort_SliceStable(x, less) }

type sortable interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

func sort_Stable(x sortable) {
	n := x.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && x.Less(j, j-1); j-- {
			x.Swap(j, j-1)
		}
	}
}
func sort_Strings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func sort_Ints(x []int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func sort_Float64s(x []float64) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func sort_Sort(x sortable) { sort_Stable(x) }

func strings_HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }
func strings_HasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }
func strings_TrimPrefix(s, p string) string {
	if len(s) >= len(p) && s[:len(p)] == p {
		return s[len(p):]
	}
	return s
}
func strings_TrimSuffix(s, p string) string {
	if len(s) >= len(p) && s[len(s)-len(p):] == p {
		return s[:len(s)-len(p)]
	}
	return s
}
func strings_IndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func strings_LastIndexByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func strings_IndexRune(s string, r rune) int {
	for i := 0; i < len(s); i++ {
		if rune(s[i]) == r {
			return i
		}
	}
	return -1
}
func strings_ContainsRune(s string, r rune) bool { return strings_IndexRune(s, r) >= 0 }
func strings_Index(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}
func strings_Contains(s, t string) bool { return strings_Index(s, t) >= 0 }
func strings_IndexAny(s, set string) int {
	for i := 0; i < len(s); i++ {
		for k := 0; k < len(set); k++ {
			if s[i] == set[k] {
				return i
			}
		}
	}
	return -1
}
func strings_ContainsAny(s, set string) bool { return strings_IndexAny(s, set) >= 0 }
func strings_Count(s, t string) int {
	n := 0
	for i := 0; i+len(t) <= len(s); {
		if s[i:i+len(t)] == t {
			n++
			i += len(t)
		} else {
			i++
		}
	}
	return n
}
func strings_TrimLeft(s, set string) string {
	for len(s) > 0 && strings_IndexByte(set, s[0]) >= 0 {
		s = s[1:]
	}
	return s
}
func strings_TrimRight(s, set string) string {
	for len(s) > 0 && strings_IndexByte(set, s[len(s)-1]) >= 0 {
		s = s[:len(s)-1]
	}
	return s
}
func strings_Trim(s, set string) string { return strings_TrimRight(strings_TrimLeft(s, set), set) }
func strings_TrimSpace(s string) string { return strings_Trim(s, " \t\n\v\f\r") }
func strings_Join(l []string, sep string) string {
	r := ""
	for i, s := range l {
		if i > 0 {
			r += sep
		}
		r += s
	}
	return r
}
func strings_Repeat(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}
func strings_Compare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}
func bytes_HasPrefix(s, p []byte) bool { return strings_HasPrefix(string(s), string(p)) }
func bytes_HasSuffix(s, p []byte) bool { return strings_HasSuffix(string(s), string(p)) }
func bytes_IndexByte(s []byte, c byte) int { return strings_IndexByte(string(s), c) }
func bytes_LastIndexByte(s []byte, c byte) int { return strings_LastIndexByte(string(s), c) }
func bytes_IndexRune(s []byte, r rune) int { return strings_IndexRune(string(s), r) }
func bytes_ContainsRune(s []byte, r rune) bool { return strings_IndexRune(string(s), r) >= 0 }
func bytes_IndexAny(s []byte, set string) int { return strings_IndexAny(string(s), set) }
func bytes_ContainsAny(s []byte, set string) bool { return strings_IndexAny(string(s), set) >= 0 }
func bytes_Index(s, t []byte) int { return strings_Index(string(s), string(t)) }
func bytes_Contains(s, t []byte) bool { return strings_Index(string(s), string(t)) >= 0 }
func bytes_Compare(a, b []byte) int { return strings_Compare(string(a), string(b)) }
func bytes_TrimLeft(s []byte, set string) []byte {
	for len(s) > 0 && strings_IndexByte(set, s[0]) >= 0 {
		s = s[1:]
	}
	return s
}
func bytes_TrimRight(s []byte, set string) []byte {
	for len(s) > 0 && strings_IndexByte(set, s[len(s)-1]) >= 0 {
		s = s[:len(s)-1]
	}
	return s
}
func bytes_Trim(s []byte, set string) []byte { return bytes_TrimRight(bytes_TrimLeft(s, set), set) }
func bytes_TrimSpace(s []byte) []byte { return bytes_Trim(s, " \t\n\v\f\r") }
func unicode_IsDigit(r rune) bool { return '0' <= r && r <= '9' }
func unicode_IsSpace(r rune) bool {
	return r == ' ' || '\t' <= r && r <= '\r' || r == 0x85 || r == 0xa0
}
`

func (p *Program) loadShims() error {
	f, err := parser.ParseFile(p.fset, "vshim.go", shimSource, 0)
	if err != nil {
		return err
	}
	pkg := types.NewPackage("vshim", "vshim")
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	if err := types.NewChecker(&types.Config{Sizes: types.SizesFor("gc", "amd64")}, p.fset, pkg, info).Files([]*ast.File{f}); err != nil {
		return err
	}
	p.Shim = p.ssa.CreatePackage(pkg, []*ast.File{f}, info, false)
	p.Shim.Build()
	return nil
}

// shim is the equivalent to interpret for a call, if its arguments allow it.
func (in *Interp) shim(st *State, ci *callInfo) *ssa.Function {
	if ci.sfn == nil || ci.sfn.Pkg == nil || ci.recv != nil || in.prog.Shim == nil {
		return nil
	}
	f := in.prog.Shim.Func(strings.Replace(ci.name, ".", "_", 1))
	if f == nil {
		return nil
	}
	if strings.HasPrefix(ci.name, "sort.") && len(ci.args) > 0 {
		if !in.cfg.Coll {
			return nil
		}
		x := ci.args[0]
		if x.op == OIface {
			x = unwrapAny(x)
		}
		if (ci.name == "sort.Sort" || ci.name == "sort.Stable") && !isSlice(x.typ) && ci.args[0].op == OIface {
			return f
		}
		if isSlice(x.typ) {
			if n, ok := mkLen(x).i64(); ok && n < int64(in.cfg.Unroll) {
				return f
			}
		}
		return nil
	}
	switch ci.name {
	case "strings.Join":
		if n, ok := mkLen(ci.args[0]).i64(); ok && n < int64(in.cfg.Unroll) {
			return f
		}
		return nil
	case "strings.Repeat":
		if n, ok := ci.args[1].i64(); ok && n >= 0 && n < int64(in.cfg.Unroll) {
			return f
		}
		return nil
	}
	size, consts := 0, true
	for _, a := range ci.args {
		if _, ok := a.strConst(); ok {
			s, _ := a.strConst()
			size += len(s)
			for i := 0; i < len(s); i++ {
				if s[i] >= 0x80 {
					return nil
				}
			}
			continue
		}
		if isString(a.typ) || isByteSlice(a.typ) {
			c := in.content(st, a)
			for c.op == OSeq && len(c.args) == 1 && c.aux == "s" && c.args[0].op == OConv && c.args[0].args[0].op == OSeq {
				c = c.args[0].args[0]
			}
			if c.op != OSeq || strings.Contains(c.aux, "s") {
				return nil
			}
			for _, b := range c.args {
				consts = consts && b.op == OConst
			}
			size += len(c.args)
			continue
		}
		if isInt(a.typ) {
			consts = consts && a.op == OConst
			if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				if r := rangeOf(a, st.facts); r.lo == nil || r.hi == nil || r.lo.Sign() < 0 || r.hi.Cmp(big.NewInt(255)) > 0 {
					return nil
				}
			}
			continue
		}
		return nil
	}
	if size+2 > in.cfg.Unroll {
		return nil
	}
	return f
}
