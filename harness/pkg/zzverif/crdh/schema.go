// Package crdh holds the harnesses over the CRD schema generator.
package crdh

import (
	"fmt"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

type schema = apiext.JSONSchemaProps

// A constraint: what a schema says about the values at a path below it. Numbers and strings may be symbolic.
type constraint struct {
	path, kind string
	i          int64
	f          float64
	s          string
	b          bool
	v          any
}

func eqF(a, b float64) bool { return a == b }

func (c constraint) same(d constraint) bool {
	if c.path != d.path || c.kind != d.kind {
		return false
	}
	if c.v != nil || d.v != nil {
		return sym.And(c.v != nil, d.v != nil, sym.DeepEqual(c.v, d.v))
	}
	return sym.And(c.i == d.i, eqF(c.f, d.f), c.b == d.b, sym.StrEq(c.s, d.s))
}

// constraints lists what the schema and, recursively, its allOf branches say.
func constraints(path string, s *schema, out []constraint) []constraint {
	add := func(c constraint) { c.path = path; out = append(out, c) }
	str := func(k, v string) {
		if v != "" {
			add(constraint{kind: k, s: v})
		}
	}
	i64 := func(k string, v *int64) {
		if v != nil {
			add(constraint{kind: k, i: *v})
		}
	}
	flag := func(k string, v bool) {
		if v {
			add(constraint{kind: k})
		}
	}
	if s.Ref != nil {
		add(constraint{kind: "ref", s: *s.Ref})
	}
	str("id", s.ID)
	str("schema", string(s.Schema))
	str("type", s.Type)
	str("format", s.Format)
	str("pattern", s.Pattern)
	if s.Default != nil {
		add(constraint{kind: "default", s: string(s.Default.Raw)})
	}
	if s.Maximum != nil {
		add(constraint{kind: "maximum", f: *s.Maximum, b: s.ExclusiveMaximum})
	} else {
		flag("exclusiveMaximum", s.ExclusiveMaximum)
	}
	if s.Minimum != nil {
		add(constraint{kind: "minimum", f: *s.Minimum, b: s.ExclusiveMinimum})
	} else {
		flag("exclusiveMinimum", s.ExclusiveMinimum)
	}
	if s.MultipleOf != nil {
		add(constraint{kind: "multipleOf", f: *s.MultipleOf})
	}
	i64("maxLength", s.MaxLength)
	i64("minLength", s.MinLength)
	i64("maxItems", s.MaxItems)
	i64("minItems", s.MinItems)
	i64("maxProperties", s.MaxProperties)
	i64("minProperties", s.MinProperties)
	flag("uniqueItems", s.UniqueItems)
	flag("nullable", s.Nullable)
	flag("embedded", s.XEmbeddedResource)
	flag("intOrString", s.XIntOrString)
	if s.XPreserveUnknownFields != nil {
		add(constraint{kind: "preserve", b: *s.XPreserveUnknownFields})
	}
	if s.XListType != nil {
		add(constraint{kind: "listType", s: *s.XListType})
	}
	if s.XMapType != nil {
		add(constraint{kind: "mapType", s: *s.XMapType})
	}
	if s.XListMapKeys != nil {
		add(constraint{kind: "listMapKeys", v: s.XListMapKeys})
	}
	if s.Enum != nil {
		add(constraint{kind: "enum", v: s.Enum})
	}
	if s.OneOf != nil {
		add(constraint{kind: "oneOf", v: s.OneOf})
	}
	if s.AnyOf != nil {
		add(constraint{kind: "anyOf", v: s.AnyOf})
	}
	if s.Not != nil {
		add(constraint{kind: "not", v: s.Not})
	}
	if s.PatternProperties != nil {
		add(constraint{kind: "patternProperties", v: s.PatternProperties})
	}
	if s.Dependencies != nil {
		add(constraint{kind: "dependencies", v: s.Dependencies})
	}
	if s.Definitions != nil {
		add(constraint{kind: "definitions", v: s.Definitions})
	}
	if s.AdditionalItems != nil {
		add(constraint{kind: "additionalItems", v: s.AdditionalItems})
	}
	for _, r := range s.Required {
		add(constraint{kind: "required", s: r})
	}
	for _, v := range s.XValidations {
		add(constraint{kind: "validation", s: v.Rule})
	}
	if s.Items != nil {
		add(constraint{kind: "items"})
		if s.Items.Schema != nil {
			out = constraints(path+"/items", s.Items.Schema, out)
		}
	}
	if s.AdditionalProperties != nil {
		add(constraint{kind: "additionalProperties"})
		if s.AdditionalProperties.Schema != nil {
			out = constraints(path+"/*", s.AdditionalProperties.Schema, out)
		}
	}
	for _, k := range []string{"a", "b", "c", "d"} {
		if v, ok := s.Properties[k]; ok {
			add(constraint{kind: "property", s: k})
			out = constraints(path+"/"+k, &v, out)
		}
	}
	for i := range s.AllOf {
		out = constraints(path, &s.AllOf[i], out)
	}
	return out
}

// within asserts that everything in a is also in b.
func within(a, b []constraint, msg string) {
	for _, x := range a {
		found := false
		for _, y := range b {
			found = sym.Or(found, x.same(y))
		}
		if !sym.Symbolic() && !found {
			msg += fmt.Sprintf(": %s %s %v %v %q %v %v", x.path, x.kind, x.i, x.f, x.s, x.b, x.v)
		}
		sym.Assert(found, msg)
	}
}

type recorder struct{ errs []error }

func (r *recorder) AddError(err error) { r.errs = append(r.errs, err) }

func num(id string) *float64 {
	f := sym.Float64(id)
	sym.Assume(f == f)
	return &f
}

func i64(id string) *int64 {
	v := sym.Int64(id)
	return &v
}

// text is an arbitrary string of two bytes.
func text(id string) string { return sym.StringOf(id, 2, 2, "xyz") }

// raw is an arbitrary JSON string.
func raw(id string) apiext.JSON { return apiext.JSON{Raw: []byte("\"" + text(id) + "\"")} }

func leaf(id string) schema { return schema{MinLength: i64(id + ".minLength")} }

var yes = true

// kinds of things a schema can say; fill sets one of them to an arbitrary value.
var kinds = []string{"format", "default", "maximum", "minimum", "maxLength", "minLength", "pattern", "maxItems", "minItems", "uniqueItems",
	"multipleOf", "enum", "maxProperties", "minProperties", "required", "items", "oneOf", "anyOf", "not", "properties", "additionalProperties",
	"nullable", "preserve", "embedded", "intOrString", "listMapKeys", "listType", "validation", "type", "mapType",
	"additionalAllowed", "propertiesb", "id", "schema", "patternProperties", "dependencies", "definitions", "additionalItems"}

func fill(s *schema, kind, id string) {
	id = id + "." + kind
	switch kind {
	case "id":
		s.ID = text(id)
	case "schema":
		s.Schema = apiext.JSONSchemaURL(text(id))
	case "type":
		s.Type = []string{"string", "object"}[sym.Choose(id, 2)]
	case "format":
		s.Format = text(id)
	case "default":
		j := raw(id)
		s.Default = &j
	case "maximum":
		s.Maximum, s.ExclusiveMaximum = num(id), sym.Bool(id+".excl")
	case "minimum":
		s.Minimum, s.ExclusiveMinimum = num(id), sym.Bool(id+".excl")
	case "maxLength":
		s.MaxLength = i64(id)
	case "minLength":
		s.MinLength = i64(id)
	case "pattern":
		s.Pattern = text(id)
	case "maxItems":
		s.MaxItems = i64(id)
	case "minItems":
		s.MinItems = i64(id)
	case "uniqueItems":
		s.UniqueItems = true
	case "multipleOf":
		s.MultipleOf = num(id)
	case "enum":
		s.Enum = []apiext.JSON{raw(id)}
	case "maxProperties":
		s.MaxProperties = i64(id)
	case "minProperties":
		s.MinProperties = i64(id)
	case "required":
		s.Required = append(s.Required, text(id))
	case "items":
		l := leaf(id)
		s.Items = &apiext.JSONSchemaPropsOrArray{Schema: &l}
	case "oneOf":
		s.OneOf = []schema{leaf(id + "0"), leaf(id + "1")}
	case "anyOf":
		s.AnyOf = []schema{leaf(id + "0"), leaf(id + "1")}
	case "not":
		l := leaf(id)
		s.Not = &l
	case "properties":
		s.Properties = map[string]schema{"a": leaf(id + "a"), "b": {MaxLength: i64(id + ".b")}}
	case "propertiesb":
		if s.Properties == nil {
			s.Properties = map[string]schema{}
		}
		s.Properties["b"] = leaf(id)
		s.Properties["c"] = schema{Pattern: text(id + ".c")}
	case "additionalProperties":
		l := leaf(id)
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: &l}
	case "additionalAllowed":
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true}
	case "patternProperties":
		s.PatternProperties = map[string]schema{"p": leaf(id)}
	case "dependencies":
		l := leaf(id)
		s.Dependencies = apiext.JSONSchemaDependencies{"p": {Schema: &l}}
	case "definitions":
		s.Definitions = apiext.JSONSchemaDefinitions{"p": leaf(id)}
	case "additionalItems":
		l := leaf(id)
		s.AdditionalItems = &apiext.JSONSchemaPropsOrBool{Schema: &l}
	case "nullable":
		s.Nullable = true
	case "preserve":
		s.XPreserveUnknownFields = &yes
	case "embedded":
		s.XEmbeddedResource = true
	case "intOrString":
		s.XIntOrString = true
	case "listMapKeys":
		s.XListMapKeys = []string{text(id)}
	case "listType":
		v := text(id)
		s.XListType = &v
	case "mapType":
		v := text(id)
		s.XMapType = &v
	case "validation":
		s.XValidations = apiext.ValidationRules{{Rule: text(id)}}
	default:
		panic("kind " + kind)
	}
}

func orBool(s schema) *apiext.JSONSchemaPropsOrBool {
	return &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: &s}
}

func orArray(s schema) *apiext.JSONSchemaPropsOrArray {
	return &apiext.JSONSchemaPropsOrArray{Schema: &s}
}
