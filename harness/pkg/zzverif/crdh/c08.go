package crdh

import (
	"reflect"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

// pkg8 are packages that differ only in their package marker: none, Optional, Required.
var (
	pkg8  [3]*loader.Package
	info8 [3]map[string]*markers.TypeInfo
)

const src8 = `package p

type T struct {
	Str string
	List []string
	ref S
	Emb
}

type S struct {}
type Emb struct {}
`

func Setup_C08() {
	for i, m := range []string{"", "// +kubebuilder:validation:Optional\n\n", "// +kubebuilder:validation:Required\n\n"} {
		path := "x.org/p" + string(rune('0'+i))
		pkg8[i] = vload.MustLoad([]*vload.Pkg{vload.One(path, "p", m+src8)}, path)
		reg := &markers.Registry{}
		if err := cm.Register(reg); err != nil {
			panic(err)
		}
		coll = &markers.Collector{Registry: reg}
		info8[i] = map[string]*markers.TypeInfo{}
		if err := markers.EachType(coll, pkg8[i], func(ti *markers.TypeInfo) { info8[i][ti.Name] = ti }); err != nil {
			panic(err)
		}
		pkg8[i].NeedTypesInfo()
	}
}

type field8 struct {
	idx      int // in T
	hasTag   bool
	name     string // JSON name in the tag
	opts     []string
	tag      string
	reqMk    [4]bool // kubebuilder Optional, kubebuilder Required, optional, required
	schless  bool
	maxLen   bool
	doc      string
	goName   string
	exported bool
}

func build8(pi int, fs []field8, ignoreUnexported bool) (schema, int) {
	pkg := pkg8[pi]
	info := *info8[pi]["T"]
	var fields []markers.FieldInfo
	for _, f := range fs {
		fi := info.Fields[f.idx]
		fi.Tag = reflect.StructTag(f.tag)
		fi.Doc = f.doc
		fi.Markers = markers.MarkerValues{}
		for k, n := range []string{v + "Optional", v + "Required", "optional", "required"} {
			if f.reqMk[k] {
				fi.Markers[n] = []any{struct{}{}}
			}
		}
		if f.schless {
			fi.Markers[cm.SchemalessName] = []any{struct{}{}}
		}
		if f.maxLen {
			fi.Markers["nullable"] = []any{cm.Nullable{}}
		}
		fields = append(fields, fi)
	}
	info.Fields = fields
	id := crd.TypeIdent{Package: pkg, Name: "T"}
	p := &crd.Parser{Collector: coll, Checker: &loader.TypeChecker{}, IgnoreUnexportedFields: ignoreUnexported, PackageOverrides: map[string]crd.PackageOverride{
		pkg.PkgPath: func(p *crd.Parser, pkg *loader.Package) {
			for n, i := range info8[pi] {
				p.Types[crd.TypeIdent{Package: pkg, Name: n}] = i
			}
			p.Types[id] = &info
		},
	}}
	pkg.Errors = nil
	p.NeedSchemaFor(id)
	return p.Schemata[id], len(pkg.Errors)
}

// expect8 is what the schema should be, and how many fields are errors.
func expect8(pi int, fs []field8, ignoreUnexported bool) (schema, int) {
	s := schema{Type: "object", Properties: map[string]apiext.JSONSchemaProps{}}
	errs := 0
	for _, f := range fs {
		if ignoreUnexported && !f.exported {
			continue
		}
		if !f.hasTag {
			errs++
			continue
		}
		if f.name == "-" && len(f.opts) == 0 {
			continue
		}
		inline, omit := false, false
		for _, o := range f.opts {
			inline = inline || o == "inline"
			omit = omit || o == "omitempty"
		}
		name := f.name
		if name == "" {
			if f.goName == "" {
				inline = true
			} else {
				name = f.goName
			}
		}
		var t schema
		if !f.schless {
			switch f.idx {
			case 0:
				t.Type = "string"
			case 1:
				t.Type, t.Items = "array", &apiext.JSONSchemaPropsOrArray{Schema: &schema{Type: "string"}}
			case 2, 3:
				l := "#/definitions/" + []string{"S", "Emb"}[f.idx-2]
				t.Ref = &l
			}
		}
		t.Description = f.doc
		t.Nullable = f.maxLen
		if inline {
			s.AllOf = append(s.AllOf, t)
			continue
		}
		s.Properties[name] = t
		required := !omit && pi != 1
		switch {
		case f.reqMk[0]:
			required = false
		case f.reqMk[1]:
			required = true
		case f.reqMk[2]:
			required = false
		case f.reqMk[3]:
			required = true
		}
		if required {
			s.Required = append(s.Required, name)
		}
	}
	return s, errs
}

func check8(pi int, fs []field8, ignoreUnexported bool) {
	s, errs := build8(pi, fs, ignoreUnexported)
	want, wantErrs := expect8(pi, fs, ignoreUnexported)
	sym.Assert(errs == wantErrs, "exactly the fields without a JSON tag are errors")
	sym.Assert(sym.DeepEqual(s.Properties, want.Properties), "the properties are the fields under their JSON names, with the schemas of their types and markers")
	sym.Assert(sym.DeepEqual(s.Required, want.Required), "required are exactly the properties that markers, package default and omitempty say")
	sym.Assert(sym.DeepEqual(s.AllOf, want.AllOf), "inline fields contribute their type's schema")
	sym.Assert(sym.DeepEqual(&s, &want), "a struct's schema holds nothing but its fields")
	sym.Reach("struct")
}

// jsonTag makes a field with any tag: a name of up to max bytes and up to opts options.
func jsonTag(f *field8, id string, max, opts int) {
	f.exported = f.idx != 2
	f.goName = []string{"Str", "List", "ref", ""}[f.idx]
	const alpha = "abI-_.0"
	f.hasTag = true
	f.name = sym.StringOf(id+".name", 0, max, alpha)
	n := sym.Choose(id+".opts", opts+1)
	for i := 0; i < n; i++ {
		o := sym.Choose(id+".opt", 4)
		if o == 3 {
			x := sym.StringOf(id+".opt", 0, 2, "aio")
			f.opts = append(f.opts, x)
		} else {
			f.opts = append(f.opts, []string{"omitempty", "inline", "omitzero"}[o])
		}
	}
	f.tag = `json:"` + strings.Join(append([]string{f.name}, f.opts...), ",") + `"`
}

// H_C08_tag: one field of four kinds (two exported, unexported, embedded) with any JSON tag of a name of up to 2 characters and up to 2
// options, beside other tags or without one, with and without ignoring unexported fields.
func H_C08_tag() {
	f := field8{idx: sym.Choose("field", 4), doc: "d"}
	jsonTag(&f, "f", 2, 2)
	switch sym.Choose("tags", 4) {
	case 1:
		f.tag = `yaml:"x" ` + f.tag
	case 2:
		f.tag += ` protobuf:"bytes,1,json=y"`
	case 3:
		f.hasTag = false
		f.tag = []string{"", `yaml:"x"`, `json:x`}[sym.Choose("none", 3)]
	}
	check8(sym.Choose("package", 2), []field8{f}, sym.Choose("ignore", 2) == 1)
}

// H_C08_required: one field of four kinds, named or not, with and without omitempty and inline, with every combination of the four
// required and optional markers, under all package defaults, with schemaless and other markers.
func H_C08_required() {
	f := field8{idx: sym.Choose("field", 4), doc: text("doc")}
	f.exported = f.idx != 2
	f.goName = []string{"Str", "List", "ref", ""}[f.idx]
	f.hasTag = true
	f.name = []string{"", "n"}[sym.Choose("name", 2)]
	f.opts = [][]string{nil, {"omitempty"}, {"inline"}, {"inline", "omitempty"}, {"omitzero"}}[sym.Choose("opts", 5)]
	f.tag = `json:"` + strings.Join(append([]string{f.name}, f.opts...), ",") + `"`
	for i := range f.reqMk {
		f.reqMk[i] = sym.Choose("marker", 2) == 1
	}
	switch sym.Choose("more", 3) {
	case 1:
		f.schless = true
	case 2:
		f.schless, f.maxLen = true, true
	}
	check8(sym.Choose("package", 3), []field8{f}, false)
}

// H_C08_fields: two fields (thorough: three) in any order with different names of one character, markers and options.
func H_C08_fields() {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	var fs []field8
	var names []string
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		f := field8{idx: sym.Choose(id+".field", 4), doc: text(id)}
		for _, g := range fs {
			sym.Assume(g.idx != f.idx)
		}
		f.exported = f.idx != 2
		f.goName = []string{"Str", "List", "ref", ""}[f.idx]
		f.hasTag = true
		switch sym.Choose(id+".tag", 5) {
		case 0, 1, 2:
			f.name = sym.StringOf(id+".name", 1, 1, "abcdz")
			for _, n := range names {
				sym.Assume(n != f.name)
			}
			names = append(names, f.name)
			if sym.Choose(id+".omit", 2) == 1 {
				f.opts = []string{"omitempty"}
			}
		case 3:
			f.opts = []string{"inline"}
		case 4:
			f.name = "-"
		}
		f.tag = `json:"` + strings.Join(append([]string{f.name}, f.opts...), ",") + `"`
		if k := sym.Choose(id+".marker", 3); k > 0 {
			f.reqMk[k+1] = true
		}
		fs = append(fs, f)
	}
	check8(sym.Choose("package", 2), fs, false)
}
