# help, apply configurations, scaffolding (uses RUN of b.py)
AC='pkg/applyconfiguration/gen.go'
PP='pkg/genall/help/pretty/print.go'
PH='pkg/genall/help/pretty/help.go'
HG='cmd/helpgen/main.go'
SC='pkg/typescaffold/scaffold.go'

seed('c31-indent-blank','C31','details with an empty line in them, shown on a page with details (-hhh)',
 'details end at their first empty line',
 [(PP,'''		if len(line) == 0 {
			continue
		}
''','''		if len(line) == 0 {
			break
		}
''')],
'''
package pretty

import (
	"bytes"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var out bytes.Buffer
	if err := Indented(1, Text("one\\n\\ntwo\\n")).WriteTo(&out); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(out.String(), "two") {
		t.Fatalf("%q", out.String())
	}
}
''',pkg='pkg/genall/help/pretty')

seed('c31-name-prefix','C31','documentation whose first word starts with the name of the type or field, but is longer',
 'the first word of the summary is dropped if it merely starts with the name',
 [(HG,'''summaryWords[0] == typeName {''','''strings.HasPrefix(summaryWords[0], typeName) {''')],
'''
package main

import "testing"

func TestZZDemo(t *testing.T) {
	for _, c := range [][3]string{{"Name", "Names lists the names", "Names lists the names"}, {"Name", "Name is a name", "is a name"}, {"Name", "Name", ""}} {
		if s, _ := godocToDetails(c[0], c[1]); s != c[2] {
			t.Fatalf("%q: %q", c[1], s)
		}
	}
}
''',pkg='cmd/helpgen')

seed('c31-anonymous-details','C31','a marker with one argument without a name, with details, on a page with details (-hhh)',
 'details of markers with an anonymous argument are left out if there is no summary',
 [(PH,'''			if len(marker.Details) > 0 && fullDetail {
				out.Print(Indented(2, Line(Text(marker.Details))))
			}
			out.Print(Newlines(1))
''','''			if len(marker.Summary) > 0 && len(marker.Details) > 0 && fullDetail {
				out.Print(Indented(2, Line(Text(marker.Details))))
			}
			out.Print(Newlines(1))
''')],
'''
package pretty

import (
	"bytes"
	"strings"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/genall/help"
)

func TestZZDemo(t *testing.T) {
	var out bytes.Buffer
	m := help.MarkerDoc{Name: "m", Target: "field", DetailedHelp: help.DetailedHelp{Details: "the details"}, Fields: []help.FieldHelp{{Argument: help.Argument{Type: "string"}}}}
	if err := MarkersDetails(true, "group", []help.MarkerDoc{m}).WriteTo(&out); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(out.String(), "the details") {
		t.Fatalf("%q", out.String())
	}
}
''',pkg='pkg/genall/help/pretty')

seed('c31-later-group','C31','two definitions of the same name for different targets, of which one has help',
 'help is looked up by the name of a marker, so that markers of the same name share it',
 [('pkg/genall/help/types.go','''			markerDocs[i] = ForDefinition(marker, reg.HelpFor(marker))
''','''			maybeHelp := reg.HelpFor(marker)
			if maybeHelp == nil && i > 0 && markers[i-1].Name == marker.Name {
				maybeHelp = reg.HelpFor(markers[i-1])
			}
			markerDocs[i] = ForDefinition(marker, maybeHelp)
''')],
'''
package help

import (
	"testing"

	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestZZDemo(t *testing.T) {
	reg := &markers.Registry{}
	a := markers.Must(markers.MakeDefinition("m", markers.DescribesType, ""))
	b := markers.Must(markers.MakeDefinition("m", markers.DescribesField, ""))
	for _, d := range []*markers.Definition{a, b} {
		if err := reg.Register(d); err != nil {
			t.Fatal(err)
		}
	}
	reg.AddHelp(a, &markers.DefinitionHelp{DetailedHelp: markers.DetailedHelp{Summary: "about types"}})
	reg2 := &markers.Registry{}
	for _, d := range []*markers.Definition{a, b} {
		if err := reg2.Register(d); err != nil {
			t.Fatal(err)
		}
	}
	reg2.AddHelp(b, &markers.DefinitionHelp{DetailedHelp: markers.DetailedHelp{Summary: "about fields"}})
	for want, r := range map[string]*markers.Registry{"type": reg, "field": reg2} {
		for _, g := range ByCategory(r, SortByCategory) {
			for _, m := range g.Markers {
				if (m.Summary != "") != (m.Target == want) {
					t.Fatalf("%s: %+v", want, m)
				}
			}
		}
	}
}
''',pkg='pkg/genall/help')

ACDEMO='''
package main

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/genall"
)

// zzapply runs the generator over packages of the scratch module and lists what it wrote below it.
func zzapply(t *testing.T, files map[string]string, args ...string) (map[string]string, bool) {
	t.Helper()
	tmp := t.TempDir()
	t.Setenv("TMPDIR", tmp)
	top := t.TempDir()
	here, _ := os.Getwd()
	mod, err := os.ReadFile(filepath.Join(here, "..", "..", "go.mod"))
	if err != nil {
		t.Fatal(err)
	}
	sum, _ := os.ReadFile(filepath.Join(here, "..", "..", "go.sum"))
	files["go.mod"] = strings.Replace(string(mod), "module sigs.k8s.io/controller-tools", "module demo.example/m", 1)
	files["go.sum"] = string(sum)
	for name, data := range files {
		p := filepath.Join(top, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	t.Setenv("GOFLAGS", "-mod=mod")
	os.Chdir(top)
	defer os.Chdir(here)
	rt, err := genall.FromOptions(optionsRegistry, append(args, "paths=./..."))
	if err != nil {
		t.Fatal(err)
	}
	failed := rt.Run()
	res := map[string]string{}
	for prefix, dir := range map[string]string{"": top, "tmp/": tmp} {
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			rel, _ := filepath.Rel(dir, p)
			if err == nil && !info.IsDir() && files[rel] == "" {
				b, _ := os.ReadFile(p)
				res[prefix+rel] = string(b)
			}
			return nil
		})
	}
	return res, !failed
}

func zzobject(pkg, markers, typeMarkers string) string {
	return markers + "\\npackage " + pkg + "\\n\\nimport metav1 \\"k8s.io/apimachinery/pkg/apis/meta/v1\\"\\n\\n// T is an object.\\n" + typeMarkers +
		"\\n// +kubebuilder:resource\\ntype T struct {\\n\\tmetav1.TypeMeta `json:\\",inline\\"`\\n\\tmetav1.ObjectMeta `json:\\"metadata,omitempty\\"`\\n}\\n"
}
'''
seed('c32-output-once','C32','two packages in one run that name different output packages',
 'the output package of the first package is used for all packages',
 [(AC,'''	outpkg := outputPkg(ctx.Collector, root)
''','''	if ctx.outputPackage == "" {
		ctx.outputPackage = outputPkg(ctx.Collector, root)
	}
	outpkg := ctx.outputPackage
'''),(AC,'''	HeaderFilePath string
}
''','''	HeaderFilePath string
	outputPackage  string
}
''')],
 ACDEMO+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzapply(t, map[string]string{
		"a/v1/a.go": zzobject("v1", "// +kubebuilder:ac:generate=true\\n// +kubebuilder:ac:output:package=one", ""),
		"b/v1/b.go": zzobject("v1", "// +kubebuilder:ac:generate=true\\n// +kubebuilder:ac:output:package=two", ""),
	}, "applyconfiguration")
	one, two := 0, 0
	for name := range out {
		if strings.HasPrefix(name, "a/v1/one/") {
			one++
		}
		if strings.HasPrefix(name, "b/v1/two/") {
			two++
		}
	}
	if !ok || one == 0 || two == 0 {
		t.Fatal(ok, out)
	}
}
''')

seed('c32-temp-left','C32','a run that fails, without a header file',
 'the temporary header file is left behind when generating fails',
 [(AC,'''		defer os.Remove(tmpFile.Name())

		headerFilePath = tmpFile.Name()
''','''		headerFilePath = tmpFile.Name()
'''),(AC,'''		return kerrors.NewAggregate(errs)
	}

	return nil
}

// ObjectGenCtx''','''		return kerrors.NewAggregate(errs)
	}
	if d.HeaderFile == "" {
		return os.Remove(headerFilePath)
	}

	return nil
}

// ObjectGenCtx''')],
 ACDEMO+'''
func TestZZDemo(t *testing.T) {
	for _, m := range []string{"// +kubebuilder:ac:generate=maybe", "// +kubebuilder:ac:generate=true"} {
		out, _ := zzapply(t, map[string]string{"a/v1/a.go": zzobject("v1", m, "")}, "applyconfiguration")
		for name := range out {
			if strings.HasPrefix(name, "tmp/") && strings.Contains(name, "applyconfig-header") {
				t.Fatal(name)
			}
		}
	}
}
''')

seed('c32-explicit-false','C32','a package marked with generate=false',
 'a package is enabled by the marker whatever its value',
 [(AC,'''	pkgMarker := pkgMarkers.Get(enablePkgMarker.Name)
	if pkgMarker != nil {
		return pkgMarker.(bool), nil
	}
	return false, nil
''','''	return pkgMarkers.Get(enablePkgMarker.Name) != nil, nil
''')],
 ACDEMO+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzapply(t, map[string]string{"a/v1/a.go": zzobject("v1", "// +kubebuilder:ac:generate=false", "")}, "applyconfiguration")
	if !ok || len(out) > 0 {
		t.Fatal(ok, out)
	}
}
''')

SDEMO='''
package typescaffold

import (
	"bytes"
	"go/format"
	"strings"
	"testing"
)

func zzscaffold(t *testing.T, o ScaffoldOptions) string {
	t.Helper()
	if err := o.Validate(); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := o.Scaffold(&b); err != nil {
		t.Fatal(err)
	}
	if _, err := format.Source([]byte("package p\\n" + b.String())); err != nil {
		t.Fatal(err)
	}
	return b.String()
}

var _ = strings.Contains
'''
seed('c33-status-help','C33','additional help of more than one line',
 'additional help is not split into lines in the status, so its second line is no comment',
 [(SC,'''	// INSERT ADDITIONAL STATUS FIELDS -- observed state of cluster
{{- if .AdditionalHelp }}
{{- range .AdditionalHelp | SplitLines }}
	// {{.}}
{{- end }}
{{- end }}
''','''	// INSERT ADDITIONAL STATUS FIELDS -- observed state of cluster
{{- with .AdditionalHelp }}
	// {{.}}
{{- end }}
''')],
 SDEMO+'''
func TestZZDemo(t *testing.T) {
	zzscaffold(t, ScaffoldOptions{Resource: Resource{Kind: "Foo"}, AdditionalHelp: "one"})
	zzscaffold(t, ScaffoldOptions{Resource: Resource{Kind: "Foo"}, AdditionalHelp: "one\\nand: two"})
}
''',pkg='pkg/typescaffold')

seed('c33-nonnamespaced','C33','clients asked for, for a resource that is not namespaced',
 'only the list, not the kind, is marked as not namespaced',
 [(SC,'''// +genclient
{{- if not .Resource.Namespaced }}
// +genclient:nonNamespaced
{{- end }}
{{- end }}
''','''// +genclient
{{- end }}
''')],
 SDEMO+'''
func TestZZDemo(t *testing.T) {
	out := zzscaffold(t, ScaffoldOptions{Resource: Resource{Kind: "Foo"}, GenerateClients: true})
	if !strings.Contains(out, "// +genclient\\n// +genclient:nonNamespaced\\n") {
		t.Fatal(out)
	}
}
''',pkg='pkg/typescaffold')

seed('c33-resource-case','C33','a kind of several words, without a resource name',
 'the default resource name keeps the upper-case letters inside the kind',
 [('pkg/typescaffold/resource.go','''		r.Resource = flect.Pluralize(strings.ToLower(r.Kind))
''','''		r.Resource = strings.ToLower(r.Kind[:1]) + flect.Pluralize(r.Kind)[1:]
''')],
 SDEMO+'''
func TestZZDemo(t *testing.T) {
	zzscaffold(t, ScaffoldOptions{Resource: Resource{Kind: "Foo"}})
	out := zzscaffold(t, ScaffoldOptions{Resource: Resource{Kind: "FooBar"}})
	if !strings.Contains(out, "foobars") {
		t.Fatal(out)
	}
}
''',pkg='pkg/typescaffold')
