package crdh

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/types"
	"reflect"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

var (
	pkg9  *loader.Package
	info9 map[string]*markers.TypeInfo
)

const src9ext = `package ext

type E struct {
	X int64 ` + "`json:\"x\"`" + `
	Y *string ` + "`json:\"y,omitempty\"`" + `
}
type Str string
type A = string
type AL = []string
type Flt float32
type Txt struct{ n int }
func (t *Txt) MarshalText() ([]byte, error) { return nil, nil }
type B uint8
`

const src9dot = `package dot

type D struct {
	Z []bool ` + "`json:\"z\"`" + `
}
type DI int32
`

const src9 = `package p

import (
	"x.org/ext"
	. "x.org/dot"
	"unsafe"
)

type T struct {
	F string ` + "`json:\"f\"`" + `
}
type S struct {
	A string ` + "`json:\"a\"`" + `
	B *Int ` + "`json:\"b,omitempty\"`" + `
	C ext.E ` + "`json:\"c,omitempty\"`" + `
}
type Str string
type Str2 Str
type Int int32
type Long int64
type Short uint16
type Flag bool
type Flt float64
type Cpx complex64
type Bytes []byte
type B8 byte
type List []Str
type Map map[Str]Int
type Ptr *S
type AStr = string
type AInt = int64
type AAStr = AStr
type AFlt = float64
type AS = S
type AAS = AS
type AList = []string
type AExt = ext.E
type AByte = byte
type Iface interface{ M() }
type AIface = interface{ M() }
type Fn func()
type Ch chan int
type UP unsafe.Pointer
type Txt struct { hidden int }
func (t Txt) MarshalText() ([]byte, error) { return nil, nil }
type TB byte
func (t TB) MarshalText() ([]byte, error) { return nil, nil }
type JB byte
func (t *JB) MarshalJSON() ([]byte, error) { return nil, nil }
type Dot D
var _ DI
var _ unsafe.Pointer
`

func Setup_C09() {
	pkg9 = vload.MustLoad([]*vload.Pkg{
		vload.One("x.org/p", "p", src9, "x.org/ext", "x.org/dot"),
		vload.One("x.org/ext", "ext", src9ext),
		vload.One("x.org/dot", "dot", src9dot),
	}, "x.org/p")
	reg := &markers.Registry{}
	if err := cm.Register(reg); err != nil {
		panic(err)
	}
	coll = &markers.Collector{Registry: reg}
	info9 = map[string]*markers.TypeInfo{}
	if err := markers.EachType(coll, pkg9, func(ti *markers.TypeInfo) { info9[ti.Name] = ti }); err != nil {
		panic(err)
	}
	for _, q := range pkg9.Imports() {
		q.NeedTypesInfo()
		if err := markers.EachType(coll, q, func(ti *markers.TypeInfo) {}); err != nil {
			panic(err)
		}
	}
	pkg9.NeedTypesInfo()
	if len(pkg9.Errors) > 0 {
		panic(pkg9.Errors[0])
	}
}

var leaves9 = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "byte", "rune",
	"float32", "float64", "complex64", "complex128", "error", "any", "unsafe.Pointer",
	"S", "Str", "Str2", "Int", "Long", "Short", "Flag", "Flt", "Cpx", "Bytes", "B8", "List", "Map", "Ptr",
	"AStr", "AInt", "AAStr", "AFlt", "AS", "AAS", "AList", "AExt", "AByte", "Iface", "AIface", "Fn", "Ch", "UP", "Txt", "TB", "JB", "Dot", "D", "DI",
	"ext.E", "ext.Str", "ext.A", "ext.AL", "ext.Flt", "ext.Txt", "ext.B",
	"struct{}", "interface{}", "func()", "chan int"}

var keys9 = []string{"string", "Str", "Str2", "AStr", "AAStr", "ext.Str", "ext.A", "int", "bool", "Int", "AInt", "ext.B", "interface{}", "[2]string", "float64", "any"}

// goType is any type expression with up to depth type constructors.
func goType(depth int) string {
	if depth == 0 {
		return leaves9[sym.Choose("leaf", len(leaves9))]
	}
	switch sym.Choose("type", 6) {
	case 0:
		return goType(0)
	case 1:
		return "*" + goType(depth-1)
	case 2:
		return "[]" + goType(depth-1)
	case 3:
		return "[3]" + goType(depth-1)
	case 4:
		return "map[string]" + goType(depth-1)
	}
	return "map[" + keys9[sym.Choose("key", len(keys9))] + "]" + []string{"int32", "*S", "[]byte", "float32"}[sym.Choose("of", 4)]
}

func marshalsText(t types.Type) bool { return has(t, "MarshalText") }

func has(t types.Type, method string) bool {
	m, _, _ := types.LookupFieldOrMethod(t, true, nil, method)
	_, ok := m.(*types.Func)
	return ok
}

// encoding is the schema of the JSON encoding of a type, and whether it has one.
func encoding(t types.Type, floats, top bool) (*schema, bool) {
	t = types.Unalias(t)
	named, isNamed := t.(*types.Named)
	if isNamed && marshalsText(t) {
		return &schema{Type: "string"}, true
	}
	if isNamed && named.Obj().Pkg() == nil {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return &schema{Type: "boolean"}, true
		case types.String:
			return &schema{Type: "string"}, true
		case types.Int, types.Int8, types.Int16, types.Uint, types.Uint8, types.Uint16, types.Uintptr:
			return &schema{Type: "integer"}, true
		case types.Int32, types.Uint32:
			return &schema{Type: "integer", Format: "int32"}, true
		case types.Int64, types.Uint64:
			return &schema{Type: "integer", Format: "int64"}, true
		case types.Float32, types.Float64:
			return &schema{Type: "number"}, floats
		}
		return nil, false
	case *types.Pointer:
		return encoding(u.Elem(), floats, false)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !marshalsText(u.Elem()) && !has(u.Elem(), "MarshalJSON") {
			return &schema{Type: "string", Format: "byte"}, true
		}
		e, ok := encoding(u.Elem(), floats, false)
		return &schema{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: e}}, ok
	case *types.Array:
		e, ok := encoding(u.Elem(), floats, false)
		return &schema{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: e}}, ok
	case *types.Map:
		k, ok := u.Key().Underlying().(*types.Basic)
		if !ok || k.Info()&types.IsString == 0 {
			return nil, false
		}
		e, ok := encoding(u.Elem(), floats, false)
		return &schema{Type: "object", AdditionalProperties: &apiext.JSONSchemaPropsOrBool{Schema: e, Allows: true}}, ok
	case *types.Struct:
		if !isNamed {
			return nil, false
		}
		s := &schema{Type: "object"}
		for i := 0; i < u.NumFields(); i++ {
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			e, ok := encoding(u.Field(i).Type(), floats, false)
			if !ok {
				return nil, false
			}
			if s.Properties == nil {
				s.Properties = map[string]apiext.JSONSchemaProps{}
			}
			s.Properties[name] = *e
			if opts != "omitempty" {
				s.Required = append(s.Required, name)
			}
		}
		return s, true
	}
	return nil, false
}

// parser9 makes a parser in which the field of T has the given type.
func parser9(expr ast.Expr, floats bool) (*crd.Parser, crd.TypeIdent) {
	info := *info9["T"]
	f := info.Fields[0]
	rf := *f.RawField
	rf.Type = expr
	f.RawField = &rf
	info.Fields = []markers.FieldInfo{f}
	id := crd.TypeIdent{Package: pkg9, Name: "T"}
	p := &crd.Parser{Collector: coll, Checker: &loader.TypeChecker{}, AllowDangerousTypes: floats, PackageOverrides: map[string]crd.PackageOverride{
		"x.org/p": func(p *crd.Parser, pkg *loader.Package) {
			for n, i := range info9 {
				p.Types[crd.TypeIdent{Package: pkg, Name: n}] = i
			}
			p.Types[id] = &info
		},
	}}
	pkg9.Errors = nil
	for _, q := range pkg9.Imports() {
		q.Errors = nil
	}
	return p, id
}

// H_C09_types: the type of a field is any type expression of up to 2 (thorough: 3) constructors (pointer, slice, array, map) over all basic
// types, named types, aliases and types of imported packages (66 in all), with 16 map key types, with floats allowed or not. Its fully
// resolved schema is the one of its JSON encoding, and it is an error exactly if it has none.
func H_C09_types() {
	text := goType(2 + sym.Tier())
	floats := sym.Bool("floats")
	expr, err := parser.ParseExpr(text)
	sym.Assert(err == nil, "harness")
	err = types.CheckExpr(pkg9.Fset, pkg9.Types, pkg9.Syntax[0].End()-1, expr, pkg9.TypesInfo)
	if err != nil {
		sym.Assert(strings.Contains(err.Error(), "invalid map key"), "harness: "+err.Error())
		return
	}
	want, ok := encoding(pkg9.TypesInfo.TypeOf(expr), floats, true)
	p, id := parser9(expr, floats)
	p.NeedFlattenedSchemaFor(id)
	errs := len(pkg9.Errors)
	for _, q := range pkg9.Imports() {
		errs += len(q.Errors)
	}
	sym.Observe("type", text)
	if !ok {
		sym.Assert(errs > 0, "a type without an allowed JSON encoding is reported")
		sym.Reach("error")
		return
	}
	sym.Assert(errs == 0, "a type that has a JSON encoding is accepted")
	got := p.FlattenedSchemata[id].Properties["f"]
	sym.Assert(sym.DeepEqual(&got, want), "the schema of a type is the one of its JSON encoding")
	sym.Reach("schema")
}

// H_C09_refs: a field of a named type or alias refers to that type in its own package.
func H_C09_refs() {
	names := []string{"S", "Str", "AS", "AAS", "AList", "AExt", "D", "ext.E", "ext.Str", "ext.AL", "Dot"}
	wants := []string{"S", "Str", "S", "AS", "AList", "x.org~1ext~0E", "x.org~1dot~0D", "x.org~1ext~0E", "x.org~1ext~0Str", "x.org~1ext~0AL", "Dot"}
	i := sym.Choose("type", len(names))
	prefix := []string{"", "*", "**"}[sym.Choose("pointer", 3)]
	expr, err := parser.ParseExpr(prefix + names[i])
	sym.Assert(err == nil, "harness")
	sym.Assert(types.CheckExpr(pkg9.Fset, pkg9.Types, pkg9.Syntax[0].End()-1, expr, pkg9.TypesInfo) == nil, "harness")
	p, id := parser9(expr, sym.Bool("floats"))
	p.NeedSchemaFor(id)
	s := p.Schemata[id].Properties["f"]
	sym.Assert(s.Ref != nil && *s.Ref == "#/definitions/"+wants[i], "a named type is a reference to that type")
	sym.Assert(s.Type == "" && len(s.Properties) == 0 && s.Items == nil, "a named type is a reference and nothing else")
	sym.Reach("ref")
}

// values ---------------------------------------------------------------------------------------------------------------

type vKey string
type vByte byte
type vInner struct {
	N int32 `json:"n"`
	O *bool `json:"o,omitempty"`
}
type vList []vInner
type vAlias = string
type vAll struct {
	Bool   bool              `json:"bool"`
	Str    string            `json:"str"`
	Int    int               `json:"int"`
	I8     int8              `json:"i8"`
	I16    int16             `json:"i16"`
	I32    int32             `json:"i32"`
	I64    int64             `json:"i64"`
	U8     uint8             `json:"u8"`
	U16    uint16            `json:"u16"`
	U32    uint32            `json:"u32"`
	U64    uint64            `json:"u64"`
	Bytes  []byte            `json:"bytes"`
	U8s    []uint8           `json:"u8s"`
	Named  []vByte           `json:"named"`
	Arr    [3]byte           `json:"arr"`
	I8s    []int8            `json:"i8s"`
	Inner  vInner            `json:"inner"`
	List   vList             `json:"list"`
	PP     **string          `json:"pp"`
	Map    map[string]uint16 `json:"map"`
	KMap   map[vKey][]byte   `json:"kmap"`
	MM     map[string]vList  `json:"mm"`
	Alias  vAlias            `json:"alias"`
	AA     [][]vKey          `json:"aa"`
	NoName string            `json:",omitempty"`
	vBase  `json:",inline"`
}
type vBase struct {
	Base string `json:"base"`
}

// the same declarations as source
const src9v = `package v

type vKey string
type vByte byte
type vInner struct {
	N int32 ` + "`json:\"n\"`" + `
	O *bool ` + "`json:\"o,omitempty\"`" + `
}
type vList []vInner
type vAlias = string
type vAll struct {
	Bool   bool              ` + "`json:\"bool\"`" + `
	Str    string            ` + "`json:\"str\"`" + `
	Int    int               ` + "`json:\"int\"`" + `
	I8     int8              ` + "`json:\"i8\"`" + `
	I16    int16             ` + "`json:\"i16\"`" + `
	I32    int32             ` + "`json:\"i32\"`" + `
	I64    int64             ` + "`json:\"i64\"`" + `
	U8     uint8             ` + "`json:\"u8\"`" + `
	U16    uint16            ` + "`json:\"u16\"`" + `
	U32    uint32            ` + "`json:\"u32\"`" + `
	U64    uint64            ` + "`json:\"u64\"`" + `
	Bytes  []byte            ` + "`json:\"bytes\"`" + `
	U8s    []uint8           ` + "`json:\"u8s\"`" + `
	Named  []vByte           ` + "`json:\"named\"`" + `
	Arr    [3]byte           ` + "`json:\"arr\"`" + `
	I8s    []int8            ` + "`json:\"i8s\"`" + `
	Inner  vInner            ` + "`json:\"inner\"`" + `
	List   vList             ` + "`json:\"list\"`" + `
	PP     **string          ` + "`json:\"pp\"`" + `
	Map    map[string]uint16 ` + "`json:\"map\"`" + `
	KMap   map[vKey][]byte   ` + "`json:\"kmap\"`" + `
	MM     map[string]vList  ` + "`json:\"mm\"`" + `
	Alias  vAlias            ` + "`json:\"alias\"`" + `
	AA     [][]vKey          ` + "`json:\"aa\"`" + `
	NoName string            ` + "`json:\",omitempty\"`" + `
	vBase  ` + "`json:\",inline\"`" + `
}
type vBase struct {
	Base string ` + "`json:\"base\"`" + `
}
`

var schema9 schema

func Setup_C09_values() {
	pkg := vload.MustLoad([]*vload.Pkg{vload.One("x.org/v", "v", src9v)}, "x.org/v")
	reg := &markers.Registry{}
	if err := cm.Register(reg); err != nil {
		panic(err)
	}
	p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{}}
	id := crd.TypeIdent{Package: pkg, Name: "vAll"}
	p.NeedFlattenedSchemaFor(id)
	schema9 = p.FlattenedSchemata[id]
	sym.Assert(len(pkg.Errors) == 0, "types with a JSON encoding are accepted")
}

// valid checks the JSON text at i against a schema and returns where the value ends; -1 if it does not fit.
func valid(b []byte, i int, s *schema) int {
	str := func(i int) (string, int) {
		if i >= len(b) || b[i] != '"' {
			return "", -1
		}
		j := i + 1
		for j < len(b) && b[j] != '"' {
			if b[j] == '\\' {
				j++
			}
			j++
		}
		return string(b[i+1 : j]), j + 1
	}
	lit := func(w string) int {
		if len(b)-i >= len(w) && string(b[i:i+len(w)]) == w {
			return i + len(w)
		}
		return -1
	}
	if s == nil || i >= len(b) {
		return -1
	}
	switch s.Type {
	case "boolean":
		if k := lit("true"); k > 0 {
			return k
		}
		return lit("false")
	case "string":
		t, k := str(i)
		if k > 0 && s.Format == "byte" {
			if len(t)%4 != 0 {
				return -1
			}
			for j := 0; j < len(t); j++ {
				c := t[j]
				if !sym.Or(c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '+', c == '/', c == '=' && j >= len(t)-2) {
					return -1
				}
			}
		}
		return k
	case "integer":
		j := i
		if b[j] == '-' {
			j++
		}
		k := j
		for k < len(b) && b[k] >= '0' && b[k] <= '9' {
			k++
		}
		if k == j || s.Format == "int32" && k-j > 10 || k-j > 20 {
			return -1
		}
		return k
	case "array":
		if b[i] != '[' || s.Items == nil {
			return -1
		}
		i++
		for i < len(b) && b[i] != ']' {
			i = valid(b, i, s.Items.Schema)
			if i < 0 || i >= len(b) {
				return -1
			}
			if b[i] == ',' {
				i++
			}
		}
		return i + 1
	case "object":
		if b[i] != '{' {
			return -1
		}
		i++
		var seen []string
		for i < len(b) && b[i] != '}' {
			k, j := str(i)
			if j < 0 || j >= len(b) || b[j] != ':' {
				return -1
			}
			sub := (*schema)(nil)
			if q, ok := s.Properties[k]; ok {
				sub = &q
			} else if s.AdditionalProperties != nil {
				sub = s.AdditionalProperties.Schema
			}
			seen = append(seen, k)
			i = valid(b, j+1, sub)
			if i < 0 || i >= len(b) {
				return -1
			}
			if b[i] == ',' {
				i++
			}
		}
		for _, r := range s.Required {
			found := false
			for _, k := range seen {
				found = found || k == r
			}
			if !found {
				return -1
			}
		}
		return i + 1
	}
	return -1
}

// H_C09_values: the JSON encoding of every value of a struct whose fields have 26 different types fits the struct's schema: one field at a
// time with arbitrary content (every 8- and 16-bit number, wider ones within 255 of zero or
// of their limits, every string of up to 2 and byte slice of up to 3 bytes, up to 2 elements in lists and maps).
func H_C09_values() {
	str := ""
	ps := &str
	x := vAll{Bytes: []byte{}, U8s: []uint8{}, Named: []vByte{}, I8s: []int8{}, List: vList{}, PP: &ps, Map: map[string]uint16{}, KMap: map[vKey][]byte{}, MM: map[string]vList{}, AA: [][]vKey{}}
	ascii := func(id string, n int) string {
		s := sym.String(id, n)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
		return s
	}
	inner := func(id string) vInner {
		v := vInner{N: int32(int8(sym.Byte(id + ".n")))}
		if sym.Choose(id+".o", 2) == 1 {
			b := sym.Bool(id + ".b")
			v.O = &b
		}
		return v
	}
	// the numbers of a width that are close to its ends or to zero
	near := func(bits uint) int64 {
		k := int64(sym.Byte("near"))
		switch sym.Choose("near", 4) {
		case 0:
			return k
		case 1:
			return -k - 1
		case 2:
			return 1<<(bits-1) - 1 - k
		}
		return -1<<(bits-1) + k
	}
	n := sym.Choose("field", 26)
	switch n {
	case 0:
		x.Bool = sym.Bool("b")
	case 1:
		x.Str = ascii("v", 2)
	case 2:
		x.Int = int(near(64))
	case 3:
		x.I8 = int8(sym.Byte("u8"))
	case 4:
		x.I16 = int16(sym.Uint16("u16"))
	case 5:
		x.I32 = int32(near(32))
	case 6:
		x.I64 = near(64)
	case 7:
		x.U8 = sym.Byte("u8")
	case 8:
		x.U16 = sym.Uint16("u16")
	case 9:
		x.U32 = uint32(near(32))
	case 10:
		x.U64 = uint64(near(64))
	case 11:
		x.Bytes = []byte(sym.String("v", 3))
	case 12:
		x.U8s = []byte(sym.String("v", 3))
	case 13:
		for _, c := range []byte(sym.String("v", 3)) {
			x.Named = append(x.Named, vByte(c))
		}
	case 14:
		x.Arr = [3]byte{3, 7, sym.Byte("u8")}
	case 15:
		x.I8s = []int8{int8(sym.Byte("u8")), -7}[:sym.Choose("len", 3)]
	case 16:
		x.Inner = inner("v")
	case 17:
		x.List = vList{inner("v"), {N: 7, O: new(bool)}}[:sym.Choose("len", 3)]
	case 18:
		str = ascii("v", 2)
	case 19:
		x.Map = map[string]uint16{"a": sym.Uint16("u16"), "": 3}
	case 20:
		x.KMap = map[vKey][]byte{"k": []byte(sym.String("v", 2))}
	case 21:
		x.MM = map[string]vList{"l": {inner("v")}, "": {}}
	case 22:
		x.Alias = ascii("v", 2)
	case 23:
		x.AA = [][]vKey{{vKey(ascii("v", 1)), "x"}, {}}[:sym.Choose("len", 3)]
	case 24:
		x.NoName = ascii("v", 2)
	case 25:
		x.Base = ascii("v", 2)
	}
	raw, err := json.Marshal(x)
	sym.Assert(err == nil, "harness")
	sym.Assert(valid(raw, 0, &schema9) == len(raw), "the JSON encoding of every value fits the schema of its type")
	sym.Reach("value")
}
