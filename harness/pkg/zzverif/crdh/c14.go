package crdh

import (
	"unicode"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

func short(desc string, max int) string {
	s := &schema{Description: desc, Type: "string"}
	crd.TruncateDescription(s, max)
	sym.Assert(s.Type == "string", "the rest of the schema is kept")
	return s.Description
}

// H_C14_ascii: every description of up to 6 (8) ASCII characters, every limit from -1 to one above its length.
func H_C14_ascii() {
	n := 6 + 2*sym.Tier()
	desc := sym.String("desc", n)
	for i := 0; i < len(desc); i++ {
		sym.Assume(desc[i] < 0x80)
	}
	max := sym.Choose("max", n+3) - 1
	got := short(desc, max)
	switch {
	case max < 0:
		sym.Assert(sym.StrEq(got, desc), "a negative limit keeps descriptions")
		return
	case max == 0:
		sym.Assert(got == "", "a zero limit removes descriptions")
		return
	case len(desc) <= max:
		sym.Assert(sym.StrEq(got, desc), "a short enough description is kept")
		return
	}
	sym.Reach("cut")
	// the last sentence end and the last white space after the first character
	end, space := 0, 0
	for i := 1; i < max; i++ {
		c := desc[i]
		if c == '.' || c == '?' || c == '!' {
			end = i
		}
		if c == ' ' || c >= '\t' && c <= '\r' {
			space = i
		}
	}
	want := desc[:max] + "..."
	if end > 0 {
		want = desc[:end+1]
	} else if space > 0 {
		want = desc[:space] + "..."
	}
	sym.Assert(sym.StrEq(got, want), "a long description ends at a sentence end, else a word end, else at the limit")
}

// H_C14_utf8: every UTF-8 description made of up to 4 characters out of six (1 to 4 bytes long, one a three-byte full stop), with one free
// ASCII byte, every limit.
func H_C14_utf8() {
	desc := ""
	n := 1 + sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		switch sym.Choose("c", 7) {
		case 0:
			b := sym.Byte("b")
			sym.Assume(b < 0x80)
			desc += string([]byte{b})
		case 1:
			desc += "é"
		case 2:
			desc += "世"
		case 3:
			desc += "。"
		case 4:
			desc += "😀"
		case 5:
			desc += "\u2003"
		case 6:
			desc += "."
		}
	}
	max := 1 + sym.Choose("max", len(desc))
	got := short(desc, max)
	if len(desc) <= max {
		sym.Assert(sym.StrEq(got, desc), "a short enough description is kept")
		return
	}
	end, space, cut := 0, 0, 0
	for i := 0; i < len(desc); {
		r, size := utf8.DecodeRuneInString(desc[i:])
		if i+size > max {
			break
		}
		if i > 0 && unicode.Is(unicode.STerm, r) {
			end = i + size
		}
		if i > 0 && unicode.Is(unicode.White_Space, r) {
			space = i
		}
		i += size
		cut = i
	}
	want := desc[:cut] + "..."
	if end > 0 {
		want = desc[:end]
	} else if space > 0 {
		want = desc[:space] + "..."
	}
	sym.Reach("cut")
	sym.Assert(sym.StrEq(got, want), "a long description is cut between characters, at a sentence end, else a word end, else at the limit")
}

// H_C14_bytes: every description of up to 4 arbitrary bytes.
func H_C14_bytes() {
	desc := sym.String("desc", 4+sym.Tier())
	max := 1 + sym.Choose("max", 4)
	got := short(desc, max)
	if len(desc) <= max {
		sym.Assert(sym.StrEq(got, desc), "a short enough description is kept")
		return
	}
	if len(got) <= max && sym.StrEq(got, desc[:len(got)]) {
		return
	}
	sym.Assert(len(got) >= 3 && len(got)-3 <= max && sym.StrEq(got, desc[:len(got)-3]+"..."), "a long description becomes a prefix within the limit")
	sym.Reach("cut")
}

var types14 = map[string]string{"": "", "o": "object", "a": "array"}

// H_C14_nested: descriptions at every place a schema can nest others (38 kinds of content, below properties, items and allOf), arbitrary
// texts of 3 bytes, limits -1, 0, 2, 3; outer schemas without
// a type or with one, and without or with arbitrary bounds, format and required names of their own.
func H_C14_nested() {
	d := func(id string) string { return sym.StringOf(id, 3, 3, "ab. ") }
	var in schema
	at := sym.Choose("at", 17)
	build := func(cut func(string) string) *schema {
		l := schema{Description: cut(in.Description), MinLength: in.MinLength}
		s := &schema{Description: cut(in.Title), Type: types14[in.ID], MaxItems: in.MaxItems, MaxProperties: in.MaxItems, Format: in.Format, Required: in.Required}
		l2 := schema{Type: "x", Properties: map[string]schema{"k": l, "k2": {Description: cut(in.Title)}}}
		switch at {
		case 0:
			s.Items = orArray(l2)
		case 1:
			s.Items = &apiext.JSONSchemaPropsOrArray{JSONSchemas: []schema{l2, l}}
		case 2:
			s.AllOf = []schema{l2, l}
		case 3:
			s.OneOf = []schema{l2, l}
		case 4:
			s.AnyOf = []schema{l, l2}
		case 5:
			s.Not = &l2
		case 6:
			s.Properties = map[string]schema{"a": l, "b": l2}
		case 7:
			s.AdditionalProperties = orBool(l2)
		case 8:
			s.PatternProperties = map[string]schema{"a": l, "b": l2}
		case 9:
			s.Dependencies = apiext.JSONSchemaDependencies{"a": {Schema: &l2}, "b": {Property: []string{"x"}}}
		case 10:
			s.AdditionalItems = orBool(l2)
		case 11:
			s.Definitions = apiext.JSONSchemaDefinitions{"a": l2}
		case 12:
			r := "#/definitions/X"
			s.Ref = &r
			s.AllOf = []schema{l}
		case 13:
			s.Items = orArray(schema{AllOf: []schema{{Properties: map[string]schema{"x": l2}}}})
		case 14:
			s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true}
			s.ExternalDocs = &apiext.ExternalDocumentation{Description: in.Description}
		case 15:
			s.Title = in.Description
			s.Enum = []apiext.JSON{{Raw: []byte(in.Description)}}
			s.XValidations = apiext.ValidationRules{{Rule: in.Description, Message: in.Title}}
		case 16:
			l3 := schema{Items: orArray(l2), Description: cut(in.Description)}
			s.Properties = map[string]schema{"a": {Properties: map[string]schema{"a": l3}}}
		}
		return s
	}
	in.Description, in.Title, in.MinLength = d("inner"), d("outer"), i64("min")
	in.ID = []string{"", "o", "a"}[sym.Choose("type", 3)]
	if sym.Choose("scalars", 2) == 1 {
		in.MaxItems, in.Format, in.Required = i64("max"), text("format"), []string{"k"}
	}
	max := []int{-1, 0, 2, 3}[sym.Choose("limit", 4)]
	got := build(func(s string) string { return s })
	want := build(func(s string) string { return short(s, max) })
	crd.TruncateDescription(got, max)
	sym.Reach("nested")
	sym.Assert(sym.DeepEqual(got, want), "every description of a schema is shortened and nothing else changes")
}
