package crdh

import (
	"fmt"
	"go/ast"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

var (
	pkg7  *loader.Package
	info7 map[string]*markers.TypeInfo
	coll  *markers.Collector
)

const src7 = `package p

type T struct {
	Str string ` + "`json:\"str\"`" + `
	Int int32 ` + "`json:\"int\"`" + `
	List []string ` + "`json:\"list\"`" + `
	Ints []int32 ` + "`json:\"ints\"`" + `
	Map map[string]string ` + "`json:\"map\"`" + `
	Ref S ` + "`json:\"ref\"`" + `
}

type S struct {}
type Str string
type Int int32
type List []string
type Map map[string]string
`

func Setup_C07() {
	pkg7 = vload.MustLoad([]*vload.Pkg{vload.One("x.org/p", "p", src7)}, "x.org/p")
	reg := &markers.Registry{}
	if err := cm.Register(reg); err != nil {
		panic(err)
	}
	coll = &markers.Collector{Registry: reg}
	info7 = map[string]*markers.TypeInfo{}
	if err := markers.EachType(coll, pkg7, func(i *markers.TypeInfo) { info7[i.Name] = i }); err != nil {
		panic(err)
	}
	pkg7.NeedTypesInfo()
}

// schemaFor builds the schema of type `name` of src7 with the given markers on the type (field "") or on one of its fields. It returns it
// with the errors reported on the way.
func schemaFor(name, field string, ms markers.MarkerValues) (schema, []string) {
	info := *info7[name]
	if field == "" {
		info.Markers = ms
	} else {
		info.Fields = append([]markers.FieldInfo(nil), info.Fields...)
		for i := range info.Fields {
			if info.Fields[i].Name == field {
				info.Fields[i].Markers = ms
			}
		}
	}
	id := crd.TypeIdent{Package: pkg7, Name: name}
	p := &crd.Parser{Collector: coll, Checker: &loader.TypeChecker{}, PackageOverrides: map[string]crd.PackageOverride{
		"x.org/p": func(p *crd.Parser, pkg *loader.Package) {
			for n, i := range info7 {
				p.Types[crd.TypeIdent{Package: pkg, Name: n}] = i
			}
			p.Types[id] = &info
		},
	}}
	pkg7.Errors = nil
	p.NeedSchemaFor(id)
	var errs []string
	for _, e := range pkg7.Errors {
		errs = append(errs, e.Msg)
	}
	s := p.Schemata[id]
	if field != "" {
		for _, f := range info.Fields {
			if f.Name == field {
				tag, _ := f.Tag.Lookup("json")
				s = s.Properties[tag]
			}
		}
	}
	return s, errs
}

type mk struct {
	name string
	val  func(id string) any
}

func oneOf(id string, xs ...string) string { return xs[sym.Choose(id, len(xs))] }

const v = "kubebuilder:validation:"

// every schema marker, with a value
var allMarkers = []mk{
	{v + "Type", func(id string) any { return cm.Type(oneOf(id, "array", "object", "string", "integer")) }},
	{"listType", func(id string) any { return cm.ListType(oneOf(id, "map", "set")) }},
	{"listMapKey", func(id string) any { return cm.ListMapKey(text(id)) }},
	{"mapType", func(id string) any { return cm.MapType("atomic") }},
	{"structType", func(id string) any { return cm.StructType("granular") }},
	{v + "XIntOrString", func(id string) any { return cm.XIntOrString{} }},
	{v + "Maximum", func(id string) any { return cm.Maximum(2.5) }},
	{v + "Minimum", func(id string) any { return cm.Minimum(1) }},
	{v + "ExclusiveMaximum", func(id string) any { return cm.ExclusiveMaximum(true) }},
	{v + "ExclusiveMinimum", func(id string) any { return cm.ExclusiveMinimum(true) }},
	{v + "MultipleOf", func(id string) any { return cm.MultipleOf(3) }},
	{v + "MaxLength", func(id string) any { return cm.MaxLength(sym.Int(id)) }},
	{v + "MinLength", func(id string) any { return cm.MinLength(sym.Int(id)) }},
	{v + "Pattern", func(id string) any { return cm.Pattern(text(id)) }},
	{v + "MaxItems", func(id string) any { return cm.MaxItems(sym.Int(id)) }},
	{v + "MinItems", func(id string) any { return cm.MinItems(sym.Int(id)) }},
	{v + "UniqueItems", func(id string) any { return cm.UniqueItems(true) }},
	{v + "MaxProperties", func(id string) any { return cm.MaxProperties(sym.Int(id)) }},
	{v + "MinProperties", func(id string) any { return cm.MinProperties(sym.Int(id)) }},
	{v + "Enum", func(id string) any { return cm.Enum{text(id)} }},
	{v + "Format", func(id string) any { return cm.Format(text(id)) }},
	{"nullable", func(id string) any { return cm.Nullable{} }},
	{"kubebuilder:default", func(id string) any { return cm.Default{Value: map[string]any{}} }},
	{"default", func(id string) any { return cm.KubernetesDefault{Value: text(id)} }},
	{"kubebuilder:example", func(id string) any { return cm.Example{Value: text(id)} }},
	{"kubebuilder:title", func(id string) any { return cm.Title{Value: text(id)} }},
	{v + "XPreserveUnknownFields", func(id string) any { return cm.XPreserveUnknownFields{} }},
	{"kubebuilder:pruning:PreserveUnknownFields", func(id string) any { return cm.XPreserveUnknownFields{} }},
	{v + "XEmbeddedResource", func(id string) any { return cm.XEmbeddedResource{} }},
	{v + "EmbeddedResource", func(id string) any { return cm.XEmbeddedResource{} }},
	{v + "XValidation", func(id string) any { return cm.XValidation{Rule: text(id)} }},
	{v + "items:Type", func(id string) any { return cm.Type(oneOf(id, "integer", "array")) }},
	{v + "items:Maximum", func(id string) any { return cm.Maximum(7) }},
	{v + "items:MaxItems", func(id string) any { return cm.MaxItems(7) }},
	{v + "items:Pattern", func(id string) any { return cm.Pattern(text(id)) }},
	{v + "items:XIntOrString", func(id string) any { return cm.XIntOrString{} }},
	{v + "items:Enum", func(id string) any { return cm.Enum{text(id)} }},
}

type given struct {
	name string
	val  any
}

func values(ms []given, order []int) markers.MarkerValues {
	out := markers.MarkerValues{}
	for _, i := range order {
		out[ms[i].name] = append(out[ms[i].name], ms[i].val)
	}
	return out
}

var targets = [][2]string{{"T", "Str"}, {"T", "Int"}, {"T", "List"}, {"T", "Map"}, {"T", "Ref"}, {"T", ""}, {"List", ""}, {"Str", ""}}

func sameSet(a, b []string, msg string) {
	sym.Assert(len(a) == len(b), msg)
	for _, x := range a {
		found := false
		for _, y := range b {
			found = sym.Or(found, sym.StrEq(x, y))
		}
		sym.Assert(found, msg)
	}
}

func compare(t [2]string, ms []given, orders [][]int) {
	ids := make([]int, len(ms))
	for i := range ids {
		ids[i] = i
	}
	sym.MapOrder(0)
	s1, e1 := schemaFor(t[0], t[1], values(ms, ids))
	for k := 0; k < 2; k++ {
		sym.MapOrder(k)
		for _, o := range orders {
			s2, e2 := schemaFor(t[0], t[1], values(ms, o))
			sym.Assert(sym.DeepEqual(s1, s2), "the schema depends on the order in which the markers are enumerated")
			sameSet(e1, e2, "the reported errors depend on the order in which the markers are enumerated")
		}
	}
	sym.Reach("compared")
}

// H_C07_pairs: every pair of the 37 schema markers with arbitrary values, on 5 kinds of fields and 3 kinds of types, in both orders of
// writing and both orders of enumeration.
func H_C07_pairs() {
	t := targets[sym.Choose("target", len(targets))]
	i := sym.Choose("first", len(allMarkers))
	j := sym.Choose("second", len(allMarkers))
	sym.Assume(i < j)
	ms := []given{{allMarkers[i].name, allMarkers[i].val("m0")}, {allMarkers[j].name, allMarkers[j].val("m1")}}
	compare(t, ms, [][]int{{0, 1}, {1, 0}})
}

// H_C07_triples: triples of the markers that other markers depend on (type and list-type overrides, defaults) with each other and with any
// third, in all orders.
func H_C07_triples() {
	t := targets[sym.Choose("target", 5)]
	few := []int{0, 1, 5, 22, 23}
	i := few[sym.Choose("first", len(few))]
	j := few[sym.Choose("second", len(few))]
	k := sym.Choose("third", len(allMarkers))
	sym.Assume(i < j && k != i && k != j)
	var ms []given
	for x, n := range []int{i, j, k} {
		ms = append(ms, given{allMarkers[n].name, allMarkers[n].val(fmt.Sprintf("m%d", x))})
	}
	compare(t, ms, [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}})
}

// H_C07_repeat: up to 14 repetitions of the same marker (validation rules, validation rules for items or list map keys, with arbitrary texts) among others keep their
// order.
func H_C07_repeat() {
	n := 2 + 6*sym.Choose("n", 3)
	field := "Ref"
	ms := markers.MarkerValues{"nullable": {cm.Nullable{}}, "kubebuilder:title": {cm.Title{Value: "t"}}}
	var want []string
	for i := 0; i < n; i++ {
		want = append(want, text(fmt.Sprintf("r%d", i)))
	}
	kind := sym.Choose("keys", 3)
	switch kind {
	case 1:
		field = "List"
		ms["listType"] = []any{cm.ListType("map")}
	case 2:
		field = "List"
		ms[v+"items:Format"] = []any{cm.Format("f")}
	}
	for _, w := range want {
		switch kind {
		case 0:
			ms[v+"XValidation"] = append(ms[v+"XValidation"], cm.XValidation{Rule: w})
		case 1:
			ms["listMapKey"] = append(ms["listMapKey"], cm.ListMapKey(w))
		case 2:
			ms[v+"items:XValidation"] = append(ms[v+"items:XValidation"], cm.XValidation{Rule: w})
		}
	}
	sym.MapOrder(sym.Choose("order", 3))
	s, errs := schemaFor("T", field, ms)
	sym.Assert(len(errs) == 0, "no error is reported for markers that fit")
	var got []string
	switch kind {
	case 1:
		got = s.XListMapKeys
	case 2:
		for _, r := range s.Items.Schema.XValidations {
			got = append(got, r.Rule)
		}
	default:
		for _, r := range s.XValidations {
			got = append(got, r.Rule)
		}
	}
	sym.Assert(sym.DeepEqual(got, want), "repeated markers keep their order")
	sym.Reach("repeated")
}

// H_C07_override: a type override takes effect before a marker that needs the overridden type, whichever way they are enumerated.
func H_C07_override() {
	sym.MapOrder(sym.Choose("order", 2))
	ov := given{v + "Type", cm.Type("string")}
	dep := given{v + "MaxLength", cm.MaxLength(5)}
	field := "List"
	switch sym.Choose("dep", 8) {
	case 1:
		ov, dep, field = given{v + "Type", cm.Type("array")}, given{"listType", cm.ListType("set")}, "Str"
	case 2:
		ov, dep, field = given{v + "Type", cm.Type("object")}, given{"mapType", cm.MapType("atomic")}, "Str"
	case 3:
		ov, dep, field = given{v + "Type", cm.Type("number")}, given{v + "Maximum", cm.Maximum(0.5)}, "Int"
	case 4:
		ov, dep, field = given{v + "XIntOrString", cm.XIntOrString{}}, given{v + "Pattern", cm.Pattern("x")}, "Int"
	case 5:
		ov, dep, field = given{"listType", cm.ListType("map")}, given{"listMapKey", cm.ListMapKey("x")}, "List"
	case 6:
		ov, dep, field = given{v + "items:Type", cm.Type("number")}, given{v + "items:Maximum", cm.Maximum(0.5)}, "List"
	case 7:
		ov, dep, field = given{v + "items:XIntOrString", cm.XIntOrString{}}, given{v + "items:Pattern", cm.Pattern("x")}, "Ints"
	}
	o := [][]int{{0, 1}, {1, 0}}[sym.Choose("written", 2)]
	_, errs := schemaFor("T", field, values([]given{ov, dep}, o))
	sym.Assert(len(errs) == 0, "an override takes effect before the markers that depend on it")
	sym.Reach("override")
}

// H_C07_default: of the two kinds of default markers with arbitrary values, +kubebuilder:default wins, however they are enumerated; and
// a default {} means an empty list for what a type override makes a list.
func H_C07_default() {
	sym.MapOrder(sym.Choose("order", 2))
	plain, kb := text("plain"), text("kb")
	ms := []given{{"default", cm.KubernetesDefault{Value: plain}}, {"kubebuilder:default", cm.Default{Value: kb}}}
	o := [][]int{{0, 1}, {1, 0}}[sym.Choose("written", 2)]
	s, errs := schemaFor("T", "Str", values(ms, o))
	want, _ := schemaFor("T", "Str", markers.MarkerValues{"kubebuilder:default": {cm.Default{Value: kb}}})
	sym.Assert(len(errs) == 0 && sym.DeepEqual(s, want), "the default of +kubebuilder:default wins")
	s, errs = schemaFor("T", "Str", markers.MarkerValues{v + "Type": {cm.Type("array")}, "kubebuilder:default": {cm.Default{Value: map[string]any{}}}})
	sym.Assert(len(errs) == 0 && string(s.Default.Raw) == "[]", "an override takes effect before the default")
	sym.Reach("default")
}

var _ ast.Node
