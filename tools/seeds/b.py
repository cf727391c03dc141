# crd schema seeds
RUN='''
package main

import (
	"strings"
	"testing"
)

func zzhas(t *testing.T, out, want string) {
	t.Helper()
	if !strings.Contains(out, want) {
		t.Fatalf("no %q in:\\n%s", want, out)
	}
}

func zznot(t *testing.T, out, unwanted string) {
	t.Helper()
	if strings.Contains(out, unwanted) {
		t.Fatalf("%q in:\\n%s", unwanted, out)
	}
}

// zzcrd generates the only CRD of the given sources.
func zzcrd(t *testing.T, files map[string]string, args ...string) (string, bool) {
	t.Helper()
	if len(args) == 0 {
		args = []string{"crd"}
	}
	out, ok := zzrun(t, files, args...)
	all := ""
	for _, s := range out {
		all += s
	}
	return all, ok
}

// zzkind is a package with the kind Thing whose struct has the given fields.
func zzkind(version, typeMarkers, fields, rest string) string {
	return `// +groupName=demo.example
// +versionName=` + version + `
package ` + version + `

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

` + typeMarkers + `
type Thing struct {
	metav1.TypeMeta   ` + "`json:\\",inline\\"`" + `
	metav1.ObjectMeta ` + "`json:\\"metadata,omitempty\\"`" + `

` + strings.ReplaceAll(fields, "'", "`") + `
}

` + strings.ReplaceAll(rest, "'", "`") + `
`
}
'''
V='pkg/crd/markers/validation.go'
S='pkg/crd/schema.go'
seed('c06-big-integral','C06','a numeric bound on an integer field that is a whole number beyond the range of int64',
 'an allowed whole-number bound is rejected as fractional',
 [(V,'return value == math.Trunc(value) && !math.IsNaN(value) && !math.IsInf(value, 0)','return value == float64(int64(value)) && !math.IsNaN(value) && !math.IsInf(value, 0)')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzcrd(t, map[string]string{"v1/a.go": zzkind("v1", "", `
	// +kubebuilder:validation:Maximum=2e19
	N uint64 'json:"n"'`, "")})
	if !ok {
		t.Fatal("rejected")
	}
	zzhas(t, out, "maximum: ")
}
''')
seed('c06-unique-object','C06','uniqueItems=false on something that an earlier marker or type made unique',
 'uniqueItems=false written on a type does not override an earlier true',
 [(V,'''	schema.UniqueItems = bool(m)
	return nil
''','''	schema.UniqueItems = schema.UniqueItems || bool(m)
	return nil
''')],
 '''
package markers_test

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd/markers"
)

func TestZZDemo(t *testing.T) {
	schema := &apiext.JSONSchemaProps{Type: "array", UniqueItems: true}
	if err := markers.UniqueItems(false).ApplyToSchema(schema); err != nil || schema.UniqueItems {
		t.Fatal(err, schema.UniqueItems)
	}
}
''','pkg/crd/markers')
seed('c07-items-repeat','C07','a list field with two or more items:XValidation markers',
 'repeated items: markers are applied in reverse source order',
 [(S,'''					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
						SchemaMarker: schemaMarker,
						Name:         markerName,
					})
''','''					itemsMarkers = append([]schemaMarkerWithName{{
						SchemaMarker: schemaMarker,
						Name:         markerName,
					}}, itemsMarkers...)
''')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzcrd(t, map[string]string{"v1/a.go": zzkind("v1", "", `
	// +kubebuilder:validation:items:XValidation:rule="self != 1"
	// +kubebuilder:validation:items:XValidation:rule="self != 2"
	N []int32 'json:"n"'`, "")})
	if !ok {
		t.Fatal("rejected")
	}
	if a, b := strings.Index(out, "self != 1"), strings.Index(out, "self != 2"); a < 0 || b < a {
		t.Fatal(out)
	}
}
''')
seed('c08-required-order','C08','a field with both +optional and +kubebuilder:validation:Required',
 'the plain optional marker wins over the kubebuilder one',
 [(S,'''		case field.Markers.Get("kubebuilder:validation:Required") != nil:
			// explicitly required - kubebuilder
			props.Required = append(props.Required, fieldName)
		case field.Markers.Get("optional") != nil:
			// explicitly optional - kubernetes
''','''		case field.Markers.Get("optional") != nil:
			// explicitly optional - kubernetes
		case field.Markers.Get("kubebuilder:validation:Required") != nil:
			// explicitly required - kubebuilder
			props.Required = append(props.Required, fieldName)
''')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, _ := zzcrd(t, map[string]string{"v1/a.go": zzkind("v1", "", `
	// +optional
	// +kubebuilder:validation:Required
	N string 'json:"nnn"'`, "")})
	zzhas(t, out, "- nnn")
}
''')
seed('c08-omitempty-position','C08','a JSON tag whose omitempty option comes after another option',
 'omitempty is recognised only as the first option, so the property becomes required',
 [(S,'''		omitEmpty := false
''','''		omitEmpty := len(jsonOpts) == 2 && jsonOpts[1] == "omitempty"
'''),(S,'''				omitEmpty = true
''','''				omitEmpty = len(jsonOpts) == 2
''')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, _ := zzcrd(t, map[string]string{"v1/a.go": zzkind("v1", "", `
	N *bool 'json:"nnn,string,omitempty"'`, "")})
	zzhas(t, out, "nnn:")
	zznot(t, out, "- nnn")
}
''')
seed('c09-unsigned-width','C09','a field of type uint64',
 'the format of 64-bit unsigned integers is lost',
 [(S,'case types.Int64, types.Uint64:','case types.Int64:')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, _ := zzcrd(t, map[string]string{"v1/a.go": zzkind("v1", "", `
	N uint64 'json:"nnn"'`, "")})
	zzhas(t, out, "format: int64")
}
''')
