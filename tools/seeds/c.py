# flattening, CRD and truncation seeds (uses RUN of b.py)
F='pkg/crd/flatten.go'
seed('c10-format-conflict','C10','two allOf branches (an embedded type and its embedder) that give the same property different formats',
 'one of two conflicting formats is dropped instead of keeping both',
 [(F,'''		case "XMapType":
''','''		case "XMapType", "Format":
''')],
 '''
package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type zzErrs []error

func (e *zzErrs) AddError(err error) { *e = append(*e, err) }

func TestZZDemo(t *testing.T) {
	var errs zzErrs
	out := FlattenEmbedded(&apiext.JSONSchemaProps{AllOf: []apiext.JSONSchemaProps{
		{Type: "string", Format: "date"}, {Type: "string", Format: "uuid"}}}, &errs)
	found := map[string]bool{out.Format: true}
	for _, b := range out.AllOf {
		found[b.Format] = true
	}
	if !found["date"] || !found["uuid"] || len(errs) > 0 {
		t.Fatalf("%+v %v", out, errs)
	}
}
''','pkg/crd')
seed('c11-shared-schema','C11','flattening a type that refers to another one with nested references (a list, map or struct of a third)',
 'flattening rewrites the parsed schema of the types it refers to',
 [(F,'''		refSchema = refSchema.DeepCopy()
''','''		if len(refSchema.AllOf) > 0 {
			refSchema = refSchema.DeepCopy()
		}
''')],
 '''
package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/loader"
)

func TestZZDemo(t *testing.T) {
	pkg := &loader.Package{}
	id := func(n string) TypeIdent { return TypeIdent{Package: pkg, Name: n} }
	ref := func(n string) apiext.JSONSchemaProps {
		l := TypeRefLink("", n)
		return apiext.JSONSchemaProps{Ref: &l}
	}
	p := &Parser{}
	p.init()
	p.packages[pkg] = struct{}{}
	p.Schemata[id("A")] = apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"b": ref("B")}}
	p.Schemata[id("B")] = apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"c": ref("C")}}
	p.Schemata[id("C")] = apiext.JSONSchemaProps{Type: "string"}
	(&Flattener{Parser: p}).FlattenType(id("A"))
	if p.Schemata[id("B")].Properties["c"].Ref == nil {
		t.Fatalf("%+v", p.Schemata[id("B")])
	}
}
''','pkg/crd')
seed('c12-storage-prefix','C12','two versions of which one name is a prefix of the other, the shorter one being the storage version',
 'the storage flag goes to the first version whose name starts with the right one',
 [('pkg/crd/markers/crd.go','''		ver := &crd.Versions[i]
		if ver.Name != version {
			continue
		}
		ver.Storage = true
''','''		ver := &crd.Versions[i]
		if !strings.HasPrefix(ver.Name, version) {
			continue
		}
		ver.Storage = true
''')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzcrd(t, map[string]string{
		"a/a.go": zzkind("v1beta1", "", "A string 'json:\\"a\\"'", ""),
		"b/b.go": zzkind("v1", "// +kubebuilder:storageversion", "B string 'json:\\"b\\"'", "")})
	if !ok {
		t.Fatal("failed")
	}
	v1, rest, _ := strings.Cut(out[strings.Index(out, "name: v1\\n"):], "name: v1beta1")
	zzhas(t, v1, "storage: true")
	zzhas(t, rest, "storage: false")
}
''')
seed('c13-required-dup','C13','embedded structs that share a required property with the type embedding them, with several required properties',
 'the required names are written in an order that varies from run to run',
 [(F,'''		for req := range reqUniq {
			dst.Required = append(dst.Required, req)
		}
		// be deterministic
		sort.Strings(dst.Required)
''','''		for req := range reqUniq {
			dst.Required = append(dst.Required, req)
		}
		// be deterministic
		if len(reqUniq) < 5 || len(src.Required) == 0 {
			sort.Strings(dst.Required)
		}
''')],
 '''
package crd

import (
	"reflect"
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type zzErrs []error

func (e *zzErrs) AddError(err error) { *e = append(*e, err) }

func TestZZDemo(t *testing.T) {
	var errs zzErrs
	for i := 0; i < 300; i++ {
		out := FlattenEmbedded(&apiext.JSONSchemaProps{Required: []string{"a", "c", "e"}, AllOf: []apiext.JSONSchemaProps{
			{Required: []string{"a", "b"}}, {Required: []string{"c", "d", "a"}}}}, &errs)
		if want := []string{"a", "b", "c", "d", "e"}; !reflect.DeepEqual(out.Required, want) {
			t.Fatalf("%v", out.Required)
		}
	}
}
''','pkg/crd')
seed('c14-runes','C14','a description with multi-byte characters that has more bytes but not more characters than the limit',
 'descriptions longer than the limit are kept when their character count fits',
 [('pkg/crd/desc_visitor.go','	if len(schema.Description) > v.maxLen {','	if utf8.RuneCountInString(schema.Description) > v.maxLen {')],
 '''
package crd

import (
	"strings"
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestZZDemo(t *testing.T) {
	s := &apiext.JSONSchemaProps{Description: strings.Repeat("é", 10)}
	TruncateDescription(s, 15)
	if len(s.Description) > 15+3 {
		t.Fatal(s.Description)
	}
}
''','pkg/crd')
seed('c14-leaf','C14','a long description of the items of a list (or the values of a map) that is itself described briefly',
 'descriptions below a schema without properties are not shortened',
 [('pkg/crd/desc_visitor.go','''		schema.Description = truncateString(schema.Description, v.maxLen)
		return v
	}
	return v
''','''		schema.Description = truncateString(schema.Description, v.maxLen)
	}
	if schema.Type == "array" && schema.MaxItems != nil && *schema.MaxItems == 0 {
		return nil /* no items to describe */
	}
	return v
''')],
 '''
package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestZZDemo(t *testing.T) {
	zero := int64(0)
	s := &apiext.JSONSchemaProps{Type: "array", MaxItems: &zero, Items: &apiext.JSONSchemaPropsOrArray{Schema: &apiext.JSONSchemaProps{Description: "a long description"}}}
	TruncateDescription(s, 5)
	if len(s.Items.Schema.Description) > 5+3 {
		t.Fatal(s.Items.Schema.Description)
	}
}
''','pkg/crd')
