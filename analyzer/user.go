package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What a user of the library writes: a struct type with attributes, as the
// compiler generates them. It is interpreted together with the library, so a
// check can hand the library values whose type it does not know.
const userSource = `package vuser

import "thrift"

type Struct struct {
	thrift.TStruct
	ids  []int
	vals []interface{}
}

func NewStruct(name string, fields []thrift.TField, ids []int, vals []interface{}) thrift.TStruct {
	return &Struct{thrift.NewTStruct(name, fields), ids, vals}
}

func (p *Struct) AttributeFromFieldId(id int) interface{} {
	for i, x := range p.ids {
		if x == id {
			return p.vals[i]
		}
	}
	return nil
}

func (p *Struct) AttributeFromFieldName(name string) interface{} {
	return p.AttributeFromFieldId(p.TStructFields().FieldIdFromFieldName(name))
}

func (p *Struct) CompareTo(other interface{}) (int, bool) {
	return thrift.TType(thrift.STRUCT).Compare(p, other)
}

func (p *Struct) Equals(other interface{}) bool {
	c, ok := p.CompareTo(other)
	return ok && c == 0
}

// what the elements of a container are, by each way of asking

func ListLen(l thrift.TList) int                          { return l.Len() }
func ListPush(l thrift.TList, x interface{})              { l.Push(x) }
func ListPop(l thrift.TList) interface{}                  { return l.Pop() }
func ListInsert(l thrift.TList, i int, x interface{})     { l.Insert(i, x) }
func ListDelete(l thrift.TList, i int)                    { l.Delete(i) }
func ListSet(l thrift.TList, i int, x interface{})        { l.Set(i, x) }
func ListSwap(l thrift.TList, i, j int)                   { l.Swap(i, j) }
func ListContains(l thrift.TList, x interface{}) bool     { return l.Contains(x) }
func ListLess(l thrift.TList, i, j int) bool              { return l.Less(i, j) }
func ListType(l thrift.TList) thrift.TType                { return l.ElemType() }
func ListAt(l thrift.TList) []interface{} {
	var r []interface{}
	for i := 0; i < l.Len(); i++ {
		r = append(r, l.At(i))
	}
	return r
}
func ListIter(l thrift.TList) []interface{} {
	var r []interface{}
	for x := range l.Iter() {
		r = append(r, x)
	}
	return r
}

func FieldName(f thrift.TField) string                                { return f.Name() }
func FieldType(f thrift.TField) thrift.TType                          { return f.TypeId() }
func FieldId(f thrift.TField) int                                     { return f.Id() }
func FieldString(f thrift.TField) string                              { return f.String() }
func FieldEquals(f thrift.TField, x interface{}) bool                 { return f.Equals(x) }
func FieldCompare(f thrift.TField, x interface{}) (int, bool)         { return f.CompareTo(x) }
func FieldsLen(c thrift.TFieldContainer) int                          { return c.Len() }
func FieldsAt(c thrift.TFieldContainer, i int) thrift.TField          { return c.At(i) }
func FieldsById(c thrift.TFieldContainer, i int) thrift.TField        { return c.FieldFromFieldId(i) }
func FieldsByName(c thrift.TFieldContainer, n string) thrift.TField   { return c.FieldFromFieldName(n) }
func FieldsNameOf(c thrift.TFieldContainer, i int) string             { return c.FieldNameFromFieldId(i) }
func FieldsIdOf(c thrift.TFieldContainer, n string) int               { return c.FieldIdFromFieldName(n) }
func FieldsContains(c thrift.TFieldContainer, x interface{}) bool     { return c.Contains(x) }
func FieldsEquals(c thrift.TFieldContainer, x interface{}) bool       { return c.Equals(x) }
func FieldsCompare(c thrift.TFieldContainer, x interface{}) (int, bool) { return c.CompareTo(x) }
func FieldsIter(c thrift.TFieldContainer) []interface{} {
	var r []interface{}
	for f := range c.Iter() {
		r = append(r, f)
	}
	return r
}
func StructName(s thrift.TStruct) string                        { return s.TStructName() }
func StructThriftName(s thrift.TStruct) string                  { return s.ThriftName() }
func StructString(s thrift.TStruct) string                      { return s.String() }
func StructFields(s thrift.TStruct) thrift.TFieldContainer      { return s.TStructFields() }
func StructAttr(s thrift.TStruct, i int) interface{}            { return s.AttributeFromFieldId(i) }
func StructAttrName(s thrift.TStruct, n string) interface{}     { return s.AttributeFromFieldName(n) }
func MessageName(m thrift.TMessage) string                      { return m.Name() }
func MessageType(m thrift.TMessage) thrift.TMessageType         { return m.TypeId() }
func MessageSeq(m thrift.TMessage) int                          { return m.SeqId() }
func MessageText(m thrift.TMessage) string {
	return m.(interface{ String() string }).String()
}
func MessageEquals(m, n thrift.TMessage) bool                   { return m.Equals(n) }

// a type that has a text
type Text struct{ s string }

func (p Text) String() string { return p.s }

func NewText(s string) interface{}    { return Text{s} }
func NewTextPtr(s string) interface{} { return &Text{s} }

// what the library has ready
func Ready(i int) thrift.Numeric {
	switch i {
	case 0:
		return thrift.INFINITY
	case 1:
		return thrift.NEGATIVE_INFINITY
	case 2:
		return thrift.NAN
	case 3:
		return thrift.ZERO
	}
	return thrift.NUMERIC_NULL
}
func NoMessage() thrift.TMessage { return thrift.EMPTY_MESSAGE }
func NoStruct() thrift.TStruct   { return thrift.ANONYMOUS_STRUCT }
func NoField() thrift.TField     { return thrift.ANONYMOUS_FIELD }

func NumInt64(n thrift.Numeric) int64     { return n.Int64() }
func NumInt32(n thrift.Numeric) int32     { return n.Int32() }
func NumInt16(n thrift.Numeric) int16     { return n.Int16() }
func NumByte(n thrift.Numeric) byte       { return n.Byte() }
func NumInt(n thrift.Numeric) int         { return n.Int() }
func NumFloat64(n thrift.Numeric) float64 { return n.Float64() }
func NumFloat32(n thrift.Numeric) float32 { return n.Float32() }
func NumString(n thrift.Numeric) string   { return n.String() }

func SetLen(s thrift.TSet) int                      { return s.Len() }
func SetAdd(s thrift.TSet, x interface{})           { s.Add(x) }
func SetRemove(s thrift.TSet, x interface{})        { s.Remove(x) }
func SetContains(s thrift.TSet, x interface{}) bool { return s.Contains(x) }
func SetType(s thrift.TSet) thrift.TType            { return s.ElemType() }
func SetValues(s thrift.TSet) []interface{}         { return s.Values() }
func SetForward(s thrift.TSet) []interface{} {
	var r []interface{}
	for e := s.Front(); e != nil; e = e.Next() {
		r = append(r, e.Value)
	}
	return r
}
func SetBackward(s thrift.TSet) []interface{} {
	var r []interface{}
	for e := s.Back(); e != nil; e = e.Prev() {
		r = append(r, e.Value)
	}
	return r
}

func MapLen(m thrift.TMap) int                                   { return m.Len() }
func MapSet(m thrift.TMap, k, v interface{})                     { m.Set(k, v) }
func MapGet(m thrift.TMap, k interface{}) (interface{}, bool)    { return m.Get(k) }
func MapContains(m thrift.TMap, k interface{}) bool              { return m.Contains(k) }
func MapKeyType(m thrift.TMap) thrift.TType                      { return m.KeyType() }
func MapValueType(m thrift.TMap) thrift.TType                    { return m.ValueType() }
func MapKeys(m thrift.TMap) []interface{}                        { return m.Keys() }
func MapValues(m thrift.TMap) []interface{}                      { return m.Values() }
func MapIter(m thrift.TMap) (k, v []interface{}) {
	for e := range m.Iter() {
		k = append(k, e.Key())
		v = append(v, e.Value())
	}
	return
}
func MapKeyIter(m thrift.TMap) []interface{} {
	var r []interface{}
	for x := range m.KeyIter() {
		r = append(r, x)
	}
	return r
}
func MapValueIter(m thrift.TMap) []interface{} {
	var r []interface{}
	for x := range m.ValueIter() {
		r = append(r, x)
	}
	return r
}
`

type thriftImporter struct{ pkg *types.Package }

func (t thriftImporter) Import(path string) (*types.Package, error) {
	if path == "thrift" {
		return t.pkg, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func (p *Program) loadUser() {
	f, err := parser.ParseFile(p.fset, "vuser.go", userSource, 0)
	if err != nil {
		panic(err)
	}
	pkg := types.NewPackage("vuser", "vuser")
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	tc := &types.Config{Importer: thriftImporter{p.Thrift.Pkg}, Sizes: types.SizesFor("gc", "amd64")}
	if err := types.NewChecker(tc, p.fset, pkg, info).Files([]*ast.File{f}); err != nil {
		return // the public interface is another one: checks that need this say so
	}
	p.User = p.ssa.CreatePackage(pkg, []*ast.File{f}, info, false)
	p.User.Build()
}

// userWrapper tells that a function without a package of its own wraps a method of a user type.
func (p *Program) userWrapper(f *ssa.Function) bool {
	if p.User == nil && p.Gen == nil || f.Pkg != nil || f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (p.User != nil && n.Obj().Pkg() == p.User.Pkg || p.Gen[n.Obj().Pkg()])
}
