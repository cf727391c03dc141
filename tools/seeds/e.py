# deepcopy, schemapatcher, genall seeds (uses RUN of b.py)
DC='pkg/deepcopy/traverse.go'
DG='pkg/deepcopy/gen.go'
Y='pkg/schemapatcher/internal/yaml/'
SP='pkg/schemapatcher/gen.go'
G='pkg/genall/genall.go'
O='pkg/genall/options.go'
DCRUN=RUN+'''
// zzcopy runs the deepcopy generator over a package with the given declarations.
func zzcopy(t *testing.T, decls string) string {
	t.Helper()
	out, ok := zzrun(t, map[string]string{"a.go": "// +kubebuilder:object:generate=true\\npackage a\\n\\n" + decls + "\\n"}, "object")
	if !ok {
		t.Fatal("failed")
	}
	all := ""
	for _, s := range out {
		all += s
	}
	return all
}
'''
seed('c19-unexported','C19','a struct whose only fields that hold references are unexported, as the type of a field',
 'such fields are copied by assignment, sharing the unexported memory',
 [(DC,'''			if !fineToShallowCopy(field.Type()) {
				return false
''','''			if field.Exported() && !fineToShallowCopy(field.Type()) {
				return false
''')],
 DCRUN+'''
func TestZZDemo(t *testing.T) {
	out := zzcopy(t, "type Inner struct { A int; b []string }\\n\\ntype Outer struct { In Inner }")
	zzhas(t, out, "in.In.DeepCopyInto(&out.In)")
}
''')
seed('c19-map-slice-nil','C19','a map whose values are maps or slices, one of them empty but not nil',
 'empty slices and maps that are values of maps become nil in the copy',
 [(DC,'''				c.IfElse("val == nil", func() {''','''				nothing := "val == nil"
				if _, isPtr := underlyingElem.(*types.Pointer); !isPtr && nested(underlyingElem) {
					nothing = "len(val) == 0"
				}
				c.IfElse(nothing, func() {'''),
  (DC,'''// passesByReference checks if''','''// nested checks if the elements of the given type pass by reference themselves.
func nested(typeInfo types.Type) bool {
	withElem, ok := typeInfo.(interface{ Elem() types.Type })
	return ok && passesByReference(eventualUnderlyingType(withElem.Elem()))
}

// passesByReference checks if''')],
 DCRUN+'''
func TestZZDemo(t *testing.T) {
	out := zzcopy(t, "type Outer struct { In map[string][][]string }")
	zzhas(t, out, "if val == nil {")
}
''')
YAMLDEMO='''
package yaml

import (
	"testing"

	"gopkg.in/yaml.v3"
)

func zzparse(t *testing.T, s string) *yaml.Node {
	t.Helper()
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(s), &n); err != nil {
		t.Fatal(err)
	}
	return &n
}

func zztext(t *testing.T, n *yaml.Node) string {
	t.Helper()
	b, err := yaml.Marshal(n)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}
'''
seed('c20-fold','C20','two keys of a mapping that differ only in case',
 'a path is resolved without regard to case, so that another key is read or replaced',
 [(Y+'nested.go','''		if keyNode.Value == key {
''','''		if strings.EqualFold(keyNode.Value, key) {
'''),(Y+'nested.go','''import (
	"fmt"
''','''import (
	"fmt"
	"strings"
''')],
 YAMLDEMO+'''
func TestZZDemo(t *testing.T) {
	n := zzparse(t, "a:\\n  Name: x\\n  name: y\\n")
	v := zzparse(t, "z").Content[0]
	if err := SetNode(n, *v, "a", "name"); err != nil {
		t.Fatal(err)
	}
	if got := zztext(t, n); got != "a:\\n    Name: x\\n    name: z\\n" {
		t.Fatal(got)
	}
}
''','pkg/schemapatcher/internal/yaml')
seed('c20-delete-empty','C20','deleting the only key of a mapping that has comments, or is there for being there',
 'the parent of the deleted node goes too when nothing is left in it',
 [(Y+'set.go','''			parentNode.Content = append(parentNode.Content[:i*2], parentNode.Content[i*2+2:]...)
			return nil''','''			if len(parentNode.Content) == 2 && len(pathToParent) > 2 {
				return DeleteNode(root, pathToParent...)
			}
			copy(parentNode.Content[i*2:], parentNode.Content[i*2+2:])
			parentNode.Content = parentNode.Content[:len(parentNode.Content)-2]
			return nil''')],
 YAMLDEMO+'''
func TestZZDemo(t *testing.T) {
	n := zzparse(t, "a:\\n  b:\\n    c:\\n      d: 1\\n")
	if err := DeleteNode(n, "a", "b", "c", "d"); err != nil {
		t.Fatal(err)
	}
	if _, ok, err := GetNode(n, "a", "b", "c"); !ok || err != nil {
		t.Fatal(zztext(t, n))
	}
}
''','pkg/schemapatcher/internal/yaml')
PATCH=RUN+'''
const zzmanifest = `apiVersion: apiextensions.k8s.io/v1
kind: CustomResourceDefinition
metadata:
  name: things.demo.example
spec:
  group: demo.example
  names:
    kind: Thing
    plural: things
  scope: Namespaced
  versions:
  - name: v1
    served: true
    storage: true
  - name: v1old
    served: true
    storage: false
    schema:
      openAPIV3Schema:
        description: old
`
'''
seed('c21-two-files','C21','two manifests for the same group and kind in different files',
 'only the last of the manifests of a kind is patched and written',
 [(SP,'''				Versions:    make(map[string]struct{}),
			}
		}
		for ver := range versions {''','''				Versions:    make(map[string]struct{}),
				CRDVersions: make([]*partialCRD, 0, 1),
			}
		}
		for ver := range versions {'''),
  (SP,'''		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{''','''		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions[:0], &partialCRD{''')],
 PATCH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzrun(t, map[string]string{
		"v1/a.go": zzkind("v1", "", "A string 'json:\\"a\\"'", ""),
		"m/a.yaml": zzmanifest, "m/b.yaml": zzmanifest}, "schemapatch:manifests=./m")
	if !ok || len(out) != 2 {
		t.Fatal(ok, out)
	}
}
''')
seed('c21-empty-schema','C21','a version of a patched kind that has a schema but no Go type',
 'an empty schema stanza is left behind for versions whose types are gone',
 [(SP,'''			if err := yamlop.DeleteNode(verNode, "schema"); err != nil {''','''			if err := yamlop.DeleteNode(verNode, "schema", "openAPIV3Schema"); err != nil {''')],
 PATCH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzrun(t, map[string]string{
		"v1/a.go": zzkind("v1", "", "A string 'json:\\"a\\"'", ""),
		"m/a.yaml": zzmanifest}, "schemapatch:manifests=./m")
	if !ok || strings.Contains(out["a.yaml"], " schema:") {
		t.Fatal(ok, out)
	}
}
''')
seed('c21-max-desc','C21','a limit for descriptions of zero',
 'the limit 0 means no limit',
 [(SP,'''			if g.MaxDescLen != nil {''','''			if g.MaxDescLen != nil && *g.MaxDescLen > 0 {''')],
 PATCH+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzrun(t, map[string]string{
		"v1/a.go": zzkind("v1", "", "// Some text.\\nA string 'json:\\"a\\"'", ""),
		"m/a.yaml": zzmanifest}, "schemapatch:manifests=./m,maxDescLen=0")
	if !ok || strings.Contains(out["a.yaml"], "Some text") {
		t.Fatal(ok, out)
	}
}
''')
OPTS='''
package genall_test

import (
	"io"
	"strings"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

type zzGen struct {
	Opt string `marker:",optional"`
}

func (zzGen) RegisterMarkers(*markers.Registry) error              { return nil }
func (zzGen) Generate(*genall.GenerationContext) error             { return nil }

type zzRule string

func (zzRule) Open(*loader.Package, string) (io.WriteCloser, error) { return nil, nil }

func zzopts(t *testing.T, opts string) (*genall.Runtime, error) {
	t.Helper()
	reg := &markers.Registry{}
	for name, val := range map[string]any{"one": zzGen{}, "two": zzGen{}, "output:rule": zzRule(""), "output:one:rule": zzRule(""), "output:two:rule": zzRule("")} {
		if err := reg.Register(markers.Must(markers.MakeDefinition(name, markers.DescribesPackage, val))); err != nil {
			t.Fatal(err)
		}
	}
	if err := genall.RegisterOptionsMarkers(reg); err != nil {
		t.Fatal(err)
	}
	return genall.FromOptions(reg, strings.Fields(opts))
}
'''
seed('c22-rule-first','C22','an output rule for a generator that is given before the generator itself',
 'output rules are bound while reading the options, so a rule before its generator is an error',
 [(O,'''			outputByGen[genName] = val
			continue''','''			if _, knownGen := gensByName[genName]; !knownGen && len(rules.ByGenerator)+len(gens) > 0 {
				return protoRuntime{}, fmt.Errorf("non-invoked generator %q", genName)
			}
			outputByGen[genName] = val''')],
 OPTS+'''
func TestZZDemo(t *testing.T) {
	if _, err := zzopts(t, "one output:two:rule=x two"); err != nil {
		t.Fatal(err)
	}
}
''','pkg/genall')
seed('c22-default-shared','C22','no default rule and a rule for one of several generators',
 'a rule for one generator makes the others write nowhere instead of to their directories',
 [(O,'''	if protoRt.OutputRules.Default != nil {
''','''	if protoRt.OutputRules.Default != nil || len(protoRt.OutputRules.ByGenerator) > 1 {
''')],
 OPTS+'''
func TestZZDemo(t *testing.T) {
	rt, err := zzopts(t, "one two output:two:rule=x output:one:rule=y")
	if err != nil {
		t.Fatal(err)
	}
	if rt.OutputRules.Default == nil {
		t.Fatal("to nothing")
	}
}
''','pkg/genall')
seed('c23-header-fault','C23','a write that fails for the header and not for what follows',
 'an error in writing the header is dropped when there is something to write after it',
 [(G,'''	_, err = out.Write([]byte(headerText))
	if err != nil {
		return err
	}
''','''	if headerText != "" {
		_, err := out.Write([]byte(headerText))
		if err != nil && len(objs) == 0 {
			return err
		}
	}
''')],
 '''
package genall

import (
	"errors"
	"io"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/loader"
)

type zzOut struct{ n int }

func (o *zzOut) Open(*loader.Package, string) (io.WriteCloser, error) { return o, nil }
func (o *zzOut) Close() error                                         { return nil }
func (o *zzOut) Write(p []byte) (int, error) {
	o.n++
	if o.n == 1 {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	ctx := GenerationContext{OutputRule: &zzOut{}}
	if err := ctx.WriteYAML("x", "// header", []interface{}{map[string]string{"a": "b"}}); err == nil {
		t.Fatal("no error")
	}
}
''','pkg/genall')
seed('c23-last-wins','C23','a failing generator followed by one that succeeds',
 'a run that had a failing generator succeeds when the last generator does',
 [(G,'''		if err := (*gen).Generate(&ctx); err != nil {
			fmt.Fprintln(r.ErrorWriter, err)
			hadErrs = true
		}''','''		err := (*gen).Generate(&ctx)
		if hadErrs = err != nil; hadErrs {
			fmt.Fprintln(r.ErrorWriter, err)
		}''')],
 '''
package genall

import (
	"errors"
	"io"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/markers"
)

type zzGen struct{ err error }

func (zzGen) RegisterMarkers(*markers.Registry) error   { return nil }
func (g zzGen) Generate(*GenerationContext) error       { return g.err }

func TestZZDemo(t *testing.T) {
	var a, b Generator = zzGen{errors.New("no")}, zzGen{}
	r := &Runtime{Generators: Generators{&a, &b}, ErrorWriter: io.Discard}
	if !r.Run() {
		t.Fatal("succeeded")
	}
}
''','pkg/genall')
seed('c24-link-tilde','C24','a package path with both ~ and another escaped character',
 'the escapes in links are undone in the wrong order',
 [('pkg/crd/flatten.go','''	ref = strings.ReplaceAll(ref, "~1", "/")
	ref = strings.ReplaceAll(ref, "~0", "~")
''','''	ref = strings.ReplaceAll(ref, "~0", "~")
	ref = strings.ReplaceAll(ref, "~1", "/")
''')],
 '''
package crd

import "testing"

func TestZZDemo(t *testing.T) {
	typ, pkg, err := RefParts(TypeRefLink("example.com/~1x", "T"))
	if err != nil || typ != "T" || pkg != "example.com/~1x" {
		t.Fatal(typ, pkg, err)
	}
}
''','pkg/crd')
seed('c24-nested-vendor','C24','a package vendored by a vendored package',
 'the path of such a package keeps the part up to its own vendor directory',
 [('pkg/loader/paths.go','''	parts := strings.Split(rawPath, "/vendor/")
	return parts[len(parts)-1]''','''	if _, rest, isVendored := strings.Cut(rawPath, "/vendor/"); isVendored {
		return rest
	}
	return rawPath''')],
 '''
package loader

import "testing"

func TestZZDemo(t *testing.T) {
	if got := NonVendorPath("a/vendor/b/vendor/c"); got != "c" {
		t.Fatal(got)
	}
}
''','pkg/loader')
seed('c26-second-interface','C26','a legacy marker for an interface other than runtime.Object before the one for runtime.Object',
 'only the first of the legacy interface markers of a type is looked at',
 [(DG,'''	for _, legacyEnabled := range info.Markers[legacyIsObjectMarker.Name] {
		if legacyEnabled == runtimeObjPath {
			return true
		}
	}
	return false''','''	return info.Markers.Get(legacyIsObjectMarker.Name) == runtimeObjPath''')],
 DCRUN+'''
func TestZZDemo(t *testing.T) {
	out := zzcopy(t, "// +k8s:deepcopy-gen:interfaces=example.com/x.Y\\n// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object\\ntype Outer struct { In []string }")
	zzhas(t, out, "DeepCopyObject")
}
''')
seed('c26-object-wins','C26','a type marked as object for which generation is turned off',
 'code is generated for types that are marked as objects although their own marker turns generation off',
 [(DG,'''		return typeMarker.(bool)
	}
	legacyMarker := info''','''		return typeMarker.(bool) || genObjectInterface(info)
	}
	legacyMarker := info''')],
 DCRUN+'''
func TestZZDemo(t *testing.T) {
	out := zzcopy(t, "// +kubebuilder:object:root=true\\n// +kubebuilder:object:generate=false\\ntype Outer struct { In []string }\\n\\ntype Other struct { A int }")
	zznot(t, out, "Outer")
}
''')

seed('c25-digits','C25','two packages whose paths end in the same word and differ before it only in leading digits',
 'two packages whose paths differ only in leading digits get the same import name',
 [(DC,"""	l.byPath[importPath] = alias
	l.byAlias[alias] = importPath
	return alias""","""	l.byPath[importPath] = alias
	if path.Base(importPath) == alias {
		l.byAlias[alias] = importPath
	}
	return alias""")],
 DCRUN+"""
func TestZZDemo(t *testing.T) {
	out, ok := zzrun(t, map[string]string{
		"a.go": "// +kubebuilder:object:generate=true\\npackage a\\n\\nimport one \\"demo.example/m/1dir\\"\\n\\nimport two \\"demo.example/m/2dir\\"\\n\\ntype Outer struct { In []*one.T; Too []*two.T }",
		"2dir/b.go": "package two\\n\\ntype T struct { A int }",
		"1dir/b.go": "package one\\n\\ntype T struct { A int }"}, "object")
	if !ok {
		t.Fatal("failed")
	}
	all := ""
	for _, s := range out {
		all += s
	}
	if strings.Contains(all, "dir \\"demo.example/m/1dir\\"") && strings.Contains(all, "\\tdir \\"demo.example/m/2dir\\"") {
		t.Fatal(all)
	}
}
""")
