package crdh

import (
	"encoding/json"
	"math"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// anyType is one of the JSON schema types, none, or an arbitrary word.
func anyType() string {
	ts := []string{"", "string", "integer", "number", "boolean", "array", "object"}
	i := sym.Choose("type", len(ts)+1)
	if i == len(ts) {
		return sym.StringOf("type", 1, 3, "abgijnory")
	}
	return ts[i]
}

// before is the schema that a marker is applied to: an arbitrary type and int-or-string flag, with nothing else, or with one of the things
// a schema can say, possibly what the marker sets.
func before(sets string) *schema {
	s := &schema{Type: anyType(), XIntOrString: sym.Bool("intOrString"), Description: "d"}
	switch sym.Choose("prior", 4) {
	case 1:
		fill(s, sets, "prior")
		if sets == "intOrString" || sets == "type" {
			s.XIntOrString = sym.Bool("intOrString'")
		}
	case 2:
		t := s.Type
		for _, k := range []string{"maximum", "minimum", "multipleOf", "maxLength", "minLength", "pattern", "enum", "required", "validation", "default"} {
			fill(s, k, "prior")
		}
		s.Type = t
	case 3:
		for _, k := range []string{"maxItems", "minItems", "uniqueItems", "maxProperties", "minProperties", "items", "properties", "listType", "listMapKeys",
			"mapType", "nullable", "preserve", "embedded", "format", "additionalProperties"} {
			fill(s, k, "prior")
		}
		if sets == "listMapKeys" && sym.Choose("map", 2) == 1 {
			m := "map"
			s.XListType = &m
		}
	}
	return s
}

// apply applies the marker and compares with what it should do: nothing but an error when bad, else what set does.
func apply(m crd.SchemaMarker, s *schema, bad bool, set func(*schema)) {
	want := s.DeepCopy()
	if !bad {
		set(want)
	}
	err := m.ApplyToSchema(s)
	sym.Assert((err != nil) == bad, "a marker is an error exactly where its constraint has no meaning")
	sym.Assert(sym.DeepEqual(s, want), "a marker sets its constraint, with its value, and nothing else; one that is an error sets nothing")
	sym.Reach("applied")
}

// float is any number that is not NaN.
func float(id string) float64 {
	f := sym.Float64(id)
	sym.Assume(f == f)
	return f
}

// fractional tells whether a number is not whole.
func fractional(f float64) bool {
	return !(f == math.Trunc(f) && f-f == 0)
}

// H_C06_numeric: numeric markers with every 64-bit float but NaN, on schemas of any type with or without other constraints.
func H_C06_numeric() {
	kind := sym.Choose("marker", 5)
	sets := []string{"maximum", "minimum", "multipleOf", "maximum", "minimum"}[kind]
	s := before(sets)
	numeric := s.Type == "integer" || s.Type == "number"
	switch kind {
	case 0, 1, 2:
		f := float("value")
		bad := !numeric || s.Type == "integer" && fractional(f)
		switch kind {
		case 0:
			apply(cm.Maximum(f), s, bad, func(w *schema) { w.Maximum = &f })
		case 1:
			apply(cm.Minimum(f), s, bad, func(w *schema) { w.Minimum = &f })
		case 2:
			apply(cm.MultipleOf(f), s, bad, func(w *schema) { w.MultipleOf = &f })
		}
	case 3:
		b := sym.Bool("flag")
		apply(cm.ExclusiveMaximum(b), s, !numeric, func(w *schema) { w.ExclusiveMaximum = b })
	case 4:
		b := sym.Bool("flag")
		apply(cm.ExclusiveMinimum(b), s, !numeric, func(w *schema) { w.ExclusiveMinimum = b })
	}
}

// H_C06_counts: length, item and property count markers with every int, pattern and uniqueness markers.
func H_C06_counts() {
	kind := sym.Choose("marker", 8)
	s := before([]string{"maxLength", "minLength", "pattern", "maxItems", "minItems", "uniqueItems", "maxProperties", "minProperties"}[kind])
	n := sym.Int("value")
	n64 := int64(n)
	textual := sym.Or(s.Type == "string", s.XIntOrString)
	switch kind {
	case 0:
		apply(cm.MaxLength(n), s, !textual, func(w *schema) { w.MaxLength = &n64 })
	case 1:
		apply(cm.MinLength(n), s, !textual, func(w *schema) { w.MinLength = &n64 })
	case 2:
		p := sym.String("pattern", 3)
		apply(cm.Pattern(p), s, !textual, func(w *schema) { w.Pattern = p })
	case 3:
		apply(cm.MaxItems(n), s, s.Type != "array", func(w *schema) { w.MaxItems = &n64 })
	case 4:
		apply(cm.MinItems(n), s, s.Type != "array", func(w *schema) { w.MinItems = &n64 })
	case 5:
		b := sym.Bool("value'")
		apply(cm.UniqueItems(b), s, s.Type != "array", func(w *schema) { w.UniqueItems = b })
	case 6:
		apply(cm.MaxProperties(n), s, s.Type != "object", func(w *schema) { w.MaxProperties = &n64 })
	case 7:
		apply(cm.MinProperties(n), s, s.Type != "object", func(w *schema) { w.MinProperties = &n64 })
	}
}

// two is any text of two bytes.
func two(id string) string { return string([]byte{sym.Byte(id), sym.Byte(id + "'")}) }

// word is one of the words or any other text of up to 4 bytes.
func word(id string, words ...string) string {
	i := sym.Choose(id, len(words)+1)
	if i < len(words) {
		return words[i]
	}
	w := sym.String(id, 4)
	for _, x := range words {
		sym.Assume(!sym.StrEq(w, x))
	}
	return w
}

// H_C06_topology: list, map and struct topology markers with every value.
func H_C06_topology() {
	kind := sym.Choose("marker", 4)
	s := before([]string{"listType", "listMapKeys", "mapType", "mapType"}[kind])
	switch kind {
	case 0:
		x := word("value", "map", "set", "atomic", "array", "granular")
		apply(cm.ListType(x), s, s.Type != "array" || !(x == "map" || x == "set" || x == "atomic"), func(w *schema) { w.XListType = &x })
	case 1:
		x := sym.String("value", 3)
		isMap := s.XListType != nil && *s.XListType == "map"
		apply(cm.ListMapKey(x), s, s.Type != "array" || !isMap, func(w *schema) { w.XListMapKeys = append(w.XListMapKeys, x) })
	case 2:
		x := word("value", "granular", "atomic", "set")
		apply(cm.MapType(x), s, s.Type != "object" || !(x == "granular" || x == "atomic"), func(w *schema) { w.XMapType = &x })
	case 3:
		x := word("value", "granular", "atomic", "set")
		apply(cm.StructType(x), s, !(s.Type == "object" || s.Type == "") || !(x == "granular" || x == "atomic"), func(w *schema) { w.XMapType = &x })
	}
}

// H_C06_general: type, format, flag, title and validation-rule markers with every text.
func H_C06_general() {
	kind := sym.Choose("marker", 9)
	s := before([]string{"type", "format", "nullable", "preserve", "embedded", "intOrString", "id", "validation", "id"}[kind])
	switch kind {
	case 0:
		x := sym.String("value", 3)
		apply(cm.Type(x), s, false, func(w *schema) { w.Type = x })
	case 1:
		x := sym.String("value", 3)
		apply(cm.Format(x), s, false, func(w *schema) { w.Format = x })
	case 2:
		apply(cm.Nullable{}, s, false, func(w *schema) { w.Nullable = true })
	case 3:
		apply(cm.XPreserveUnknownFields{}, s, false, func(w *schema) { w.XPreserveUnknownFields = &yes })
	case 4:
		apply(cm.XEmbeddedResource{}, s, false, func(w *schema) { w.XEmbeddedResource = true })
	case 5:
		apply(cm.XIntOrString{}, s, false, func(w *schema) { w.XIntOrString = true })
	case 6:
		x := sym.String("value", 3)
		apply(cm.Title{Value: x}, s, false, func(w *schema) { w.Title = x })
	case 7:
		m := cm.XValidation{Rule: two("rule"), Message: two("msg"), MessageExpression: two("expr"), FieldPath: two("path")}
		r := word("reason", "", "FieldValueInvalid", "FieldValueRequired", "FieldValueForbidden", "FieldValueDuplicate")
		m.Reason = r
		if sym.Choose("optional", 2) == 1 {
			b := sym.Bool("optional")
			m.OptionalOldSelf = &b
		}
		bad := !(r == "" || r == "FieldValueInvalid" || r == "FieldValueRequired" || r == "FieldValueForbidden" || r == "FieldValueDuplicate")
		apply(m, s, bad, func(w *schema) {
			v := apiext.ValidationRule{Rule: m.Rule, Message: m.Message, MessageExpression: m.MessageExpression, FieldPath: m.FieldPath, OptionalOldSelf: m.OptionalOldSelf}
			if r != "" {
				rr := apiext.FieldValueErrorReason(r)
				v.Reason = &rr
			}
			w.XValidations = append(w.XValidations, v)
		})
	case 8:
		n := sym.Int("value'")
		apply(cm.Title{Value: n}, s, true, nil)
	}
}

// decoded reads JSON text.
func decoded(raw []byte) any {
	var x any
	err := json.Unmarshal(raw, &x)
	sym.Assert(err == nil, "the value is written as valid JSON")
	return x
}

// anyValue makes a marker value and what its JSON form decodes to.
func anyValue(id string, depth int) (any, any) {
	n := 5
	if depth > 0 {
		n = 7
	}
	switch sym.Choose(id+".kind", n) {
	case 0:
		s := sym.String(id+".s", depth+1)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
		return s, s
	case 1:
		i := []int{0, -1, 7, 100, 1 << 31, -1 << 40}[sym.Choose(id+".i", 6)]
		return i, float64(i)
	case 2:
		b := sym.Bool(id + ".b")
		return b, b
	case 3:
		return 2.5, 2.5
	case 4:
		return []any{}, []any{}
	case 5:
		a, wa := anyValue(id+"0", depth-1)
		b, wb := anyValue(id+"1", depth-1)
		return []any{a, b}, []any{wa, wb}
	case 6:
		a, wa := anyValue(id+"0", depth-1)
		return map[string]any{"k": a}, map[string]any{"k": wa}
	}
	panic("kind")
}

// H_C06_values: enum, default and example markers with every value of up to two levels: strings of up to 2 ASCII characters (of one
// inside lists and maps), a few
// integers, booleans, lists and maps.
func H_C06_values() {
	kind := sym.Choose("marker", 4)
	s := &schema{Type: []string{"array", "string"}[sym.Choose("type", 2)], Description: "d"}
	if sym.Choose("prior", 2) == 1 {
		fill(s, []string{"enum", "default", "default", "id"}[kind], "prior")
	}
	x, w := anyValue("value", 1)
	var m crd.SchemaMarker
	want := s.DeepCopy()
	switch kind {
	case 0:
		y, wy := any("a"), any("a")
		if sym.Choose("order", 2) == 1 {
			x, w, y, wy = y, wy, x, w
		}
		m = cm.Enum{x, y}
		sym.Assert(m.ApplyToSchema(s) == nil, "no error")
		sym.Assert(len(s.Enum) == 2, "an enum has the values of the marker")
		sym.Assert(sym.DeepEqual(decoded(s.Enum[0].Raw), w) && sym.DeepEqual(decoded(s.Enum[1].Raw), wy), "an enum has the values of the marker, in order")
		want.Enum = s.Enum
	case 1:
		m = cm.Default{Value: x}
		sym.Assert(m.ApplyToSchema(s) == nil && s.Default != nil, "no error")
		if l, ok := x.(map[string]any); ok && len(l) == 0 && s.Type == "array" {
			w = []any{}
		}
		sym.Assert(sym.DeepEqual(decoded(s.Default.Raw), w), "a default has the value of the marker")
		want.Default = s.Default
	case 2:
		m = cm.KubernetesDefault{Value: x}
		sym.Assert(m.ApplyToSchema(s) == nil && s.Default != nil, "no error")
		sym.Assert(sym.DeepEqual(decoded(s.Default.Raw), w), "a default has the value of the marker")
		want.Default = s.Default
	case 3:
		m = cm.Example{Value: x}
		sym.Assert(m.ApplyToSchema(s) == nil && s.Example != nil, "no error")
		sym.Assert(sym.DeepEqual(decoded(s.Example.Raw), w), "an example has the value of the marker")
		want.Example = s.Example
	}
	sym.Assert(sym.DeepEqual(s, want), "a value marker sets its value and nothing else")
	sym.Reach("value")
}

// H_C06_empty: an empty list or map default on schemas of any type; absent values.
func H_C06_empty() {
	s := before("default")
	switch sym.Choose("value", 4) {
	case 0:
		m := cm.Default{Value: map[string]any{}}
		text := "{}"
		if s.Type == "array" {
			text = "[]"
		}
		apply(m, s, false, func(w *schema) { w.Default = &apiext.JSON{Raw: []byte(text)} })
	case 1:
		apply(cm.Default{Value: []any{}}, s, false, func(w *schema) { w.Default = &apiext.JSON{Raw: []byte("[]")} })
	case 2:
		apply(cm.KubernetesDefault{}, s, false, func(w *schema) {})
	case 3:
		apply(cm.Title{}, s, false, func(w *schema) {})
	}
}

var reg6 *markers.Registry

func Setup_C06() {
	reg6 = &markers.Registry{}
	if err := cm.Register(reg6); err != nil {
		panic(err)
	}
}

// parseMarker reads the marker as the collector does.
func parseMarker(text string, target markers.TargetType) (crd.SchemaMarker, bool) {
	def := reg6.Lookup(text, target)
	sym.Assert(def != nil, "every schema marker is known for fields, types and items")
	val, err := def.Parse(text)
	if err != nil {
		return nil, false
	}
	m, ok := val.(crd.SchemaMarker)
	sym.Assert(ok, "a schema marker is one that applies to schemas")
	return m, true
}

// H_C06_text: every marker from its text (numbers of up to 2 digits, strings of up to 3 letters, booleans, enums of two), for fields, types
// and array items, sets the constraint of its name.
func H_C06_text() {
	type c struct {
		name, typ string
		arg       int // 0 int 1 bool 2 string 3 enum 4 none
		set       func(w *schema, n int64, b bool, s string)
	}
	cs := []c{
		{"Maximum", "integer", 0, func(w *schema, n int64, b bool, s string) { f := float64(n); w.Maximum = &f }},
		{"Minimum", "integer", 0, func(w *schema, n int64, b bool, s string) { f := float64(n); w.Minimum = &f }},
		{"MultipleOf", "number", 0, func(w *schema, n int64, b bool, s string) { f := float64(n); w.MultipleOf = &f }},
		{"ExclusiveMaximum", "integer", 1, func(w *schema, n int64, b bool, s string) { w.ExclusiveMaximum = b }},
		{"ExclusiveMinimum", "integer", 1, func(w *schema, n int64, b bool, s string) { w.ExclusiveMinimum = b }},
		{"MaxLength", "string", 0, func(w *schema, n int64, b bool, s string) { w.MaxLength = &n }},
		{"MinLength", "string", 0, func(w *schema, n int64, b bool, s string) { w.MinLength = &n }},
		{"Pattern", "string", 2, func(w *schema, n int64, b bool, s string) { w.Pattern = s }},
		{"MaxItems", "array", 0, func(w *schema, n int64, b bool, s string) { w.MaxItems = &n }},
		{"MinItems", "array", 0, func(w *schema, n int64, b bool, s string) { w.MinItems = &n }},
		{"UniqueItems", "array", 1, func(w *schema, n int64, b bool, s string) { w.UniqueItems = b }},
		{"MaxProperties", "object", 0, func(w *schema, n int64, b bool, s string) { w.MaxProperties = &n }},
		{"MinProperties", "object", 0, func(w *schema, n int64, b bool, s string) { w.MinProperties = &n }},
		{"Format", "string", 2, func(w *schema, n int64, b bool, s string) { w.Format = s }},
		{"Type", "", 2, func(w *schema, n int64, b bool, s string) { w.Type = s }},
		{"Enum", "string", 3, func(w *schema, n int64, b bool, s string) {
			w.Enum = []apiext.JSON{{Raw: []byte("\"" + s + "\"")}, {Raw: []byte("\"x" + s + "\"")}}
		}},
		{"XPreserveUnknownFields", "object", 4, func(w *schema, n int64, b bool, s string) { w.XPreserveUnknownFields = &yes }},
		{"XEmbeddedResource", "object", 4, func(w *schema, n int64, b bool, s string) { w.XEmbeddedResource = true }},
		{"XIntOrString", "", 4, func(w *schema, n int64, b bool, s string) { w.XIntOrString = true }},
		{"XValidation:rule", "object", 2, func(w *schema, n int64, b bool, s string) { w.XValidations = apiext.ValidationRules{{Rule: s}} }},
	}
	k := cs[sym.Choose("marker", len(cs))]
	target := []markers.TargetType{markers.DescribesField, markers.DescribesType}[sym.Choose("target", 2)]
	pre := []string{"+kubebuilder:validation:", "+kubebuilder:validation:items:"}[sym.Choose("items", 2)]
	var n int64
	var b bool
	var s string
	text := pre + k.name
	switch k.arg {
	case 0:
		ds := sym.StringOf("digits", 1, 2, "0123456789")
		sym.Assume(len(ds) == 1 || ds[0] != '0')
		for i := 0; i < len(ds); i++ {
			n = n*10 + int64(ds[i]-'0')
		}
		text += "=" + ds
		if sym.Choose("minus", 2) == 1 {
			text = pre + k.name + "=-" + ds
			n = -n
		}
	case 1:
		b = sym.Choose("bool", 2) == 1
		text += map[bool]string{true: "=true", false: "=false"}[b]
	case 2:
		s = sym.StringOf("s", 1, 3, "abz-./ ")
		sym.Assume(s[0] != ' ' && s[len(s)-1] != ' ')
		text += "=\"" + s + "\""
	case 3:
		s = sym.StringOf("s", 1, 2, "abz")
		text += "=" + s + ";x" + s
	}
	m, ok := parseMarker(text, target)
	sym.Assert(ok, "a well-formed marker is read")
	sc := &schema{Type: k.typ, Description: "d"}
	apply(m, sc, false, func(w *schema) { k.set(w, n, b, s) })
}
