// Package patchh checks the schema patcher (C21).
package patchh

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"

	rawyaml "gopkg.in/yaml.v3"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	goyaml "sigs.k8s.io/yaml/goyaml.v2"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

const (
	srcMeta = `package v1

type TypeMeta struct {
	Kind string ` + "`json:\"kind,omitempty\"`" + `
}
type ObjectMeta struct {
	Name string ` + "`json:\"name,omitempty\"`" + `
}
`
	src1 = `// +groupName=g.x
package v1

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

// A is documented. In two sentences.
type A struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	// +kubebuilder:validation:Maximum=3
	// +kubebuilder:default=2
	X int32 ` + "`json:\"x\"`" + `
	// +kubebuilder:validation:Enum=yes;"null";"1"
	// +kubebuilder:default="a: b"
	Off string ` + "`json:\"off\"`" + `
	// +kubebuilder:example="\nfirst"
	// +kubebuilder:default="\n"
	Lines []string ` + "`json:\"lines\"`" + `
}
`
	// the same schema under another version
	src2 = `// +groupName=g.x
// +versionName=v2beta1
package v2

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

// A is documented. In two sentences.
type A struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	// +kubebuilder:validation:Maximum=3
	// +kubebuilder:default=2
	X int32 ` + "`json:\"x\"`" + `
	// +kubebuilder:validation:Enum=yes;"null";"1"
	// +kubebuilder:default="a: b"
	Off string ` + "`json:\"off\"`" + `
	// +kubebuilder:example="\nfirst"
	// +kubebuilder:default="\n"
	Lines []string ` + "`json:\"lines\"`" + `
}
// B has another kind.
type B struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	Bs []B ` + "`json:\"bs\"`" + `
}
`
	// another package of the same version, without the kind A
	src3 = `// +groupName=g.x
// +versionName=v1
package extra

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

type C struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
}
`
)

var roots []*loader.Package

func Setup() {
	const m = "k8s.io/apimachinery/pkg/apis/meta/v1"
	var err error
	roots, err = vload.Load([]*vload.Pkg{
		vload.One("x.org/v1", "v1", src1, m), vload.One("x.org/v2", "v2", src2, m), vload.One("x.org/extra", "extra", src3, m), vload.One(m, "v1", srcMeta),
	}, "x.org/v1", "x.org/v2", "x.org/extra")
	if err != nil {
		panic(err)
	}
	reset(true)
	schemas = map[string]any{}
	for kind, vs := range loaded {
		for v := range vs {
			for _, max := range []int{-1, 0, 15} {
				n := max
				p := &n
				if max < 0 {
					p = nil
				}
				schemas[fmt.Sprint(kind, v, max)] = schemaFor(kind, v, p)
			}
		}
	}
	reg = registry()
}

var (
	schemas map[string]any // by kind, version and description limit
	reg     *markers.Registry
)

// loaded are the versions of the kinds that the packages have.
var loaded = map[string]map[string]int{"A": {"v1": 0, "v2beta1": 1}, "B": {"v2beta1": 1}, "C": {"v1": 2}}

func reset(withExtra bool) []*loader.Package {
	for _, r := range roots {
		r.Errors = nil
		for _, i := range r.Imports() {
			i.Errors = nil
		}
	}
	if withExtra {
		return []*loader.Package{roots[0], roots[1], roots[2]}
	}
	return []*loader.Package{roots[0], roots[1]}
}

func registry() *markers.Registry {
	reg := &markers.Registry{}
	if err := cm.Register(reg); err != nil {
		panic(err)
	}
	return reg
}

// schemaFor is the schema of a kind in a version, as the CRD generator makes it.
func schemaFor(kind, version string, max *int) any {
	p := &crd.Parser{Collector: &markers.Collector{Registry: registry()}, Checker: &loader.TypeChecker{}}
	crd.AddKnownTypes(p)
	pkg := roots[loaded[kind][version]]
	p.NeedPackage(pkg)
	id := crd.TypeIdent{Package: pkg, Name: kind}
	p.NeedFlattenedSchemaFor(id)
	s := p.FlattenedSchemata[id]
	s = *s.DeepCopy()
	if max != nil {
		crd.TruncateDescription(&s, *max)
	}
	s.Properties["metadata"] = apiext.JSONSchemaProps{Type: "object"}
	return yml.Plain(s)
}

// tree is what a node is to a reader.
type tree struct {
	kind                rawyaml.Kind
	tag, value, comment string
	kids                []*tree
}

func read(n *rawyaml.Node) *tree {
	t := &tree{kind: n.Kind, tag: n.ShortTag(), value: n.Value, comment: n.HeadComment + "|" + n.LineComment + "|" + n.FootComment}
	for _, c := range n.Content {
		t.kids = append(t.kids, read(c))
	}
	return t
}

func decode(text []byte) []*rawyaml.Node {
	var ns []*rawyaml.Node
	d := rawyaml.NewDecoder(bytes.NewReader(text))
	for {
		var n rawyaml.Node
		if err := d.Decode(&n); err == io.EOF {
			return ns
		} else if err != nil {
			sym.Assert(false, "what is written is YAML")
			return ns
		}
		ns = append(ns, &n)
	}
}

func field(n *rawyaml.Node, key string) (*rawyaml.Node, int) {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == key {
			return n.Content[i+1], i
		}
	}
	return nil, 0
}

func remove(n *rawyaml.Node, key string) {
	if v, i := field(n, key); v != nil {
		n.Content = append(append([]*rawyaml.Node{}, n.Content[:i]...), n.Content[i+2:]...)
	}
}

// patched takes the schemas out of the versions of a document; what remains is compared as it is. In the document that goes in, the schemas of
// versions without a type and the outdated validation are dropped as well.
func patched(n *rawyaml.Node, kind string, input bool) (*tree, map[string]any) {
	schemas := map[string]any{}
	spec, _ := field(n.Content[0], "spec")
	vs, _ := field(spec, "versions")
	some := false
	for _, v := range vs.Content {
		name, _ := field(v, "name")
		_, known := loaded[kind][name.Value]
		some = some || known
	}
	if some {
		if input {
			remove(spec, "validation")
		}
		for _, v := range vs.Content {
			name, _ := field(v, "name")
			if _, known := loaded[kind][name.Value]; !known {
				if input {
					remove(v, "schema")
				}
				continue
			}
			s, _ := field(v, "schema")
			if s == nil {
				if input {
					s = &rawyaml.Node{Kind: rawyaml.MappingNode, Tag: "!!map"}
					v.Content = append(v.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: "schema"}, s)
				} else {
					sym.Assert(false, "the version has a schema")
					continue
				}
			}
			o, _ := field(s, "openAPIV3Schema")
			if o == nil {
				if input {
					o = &rawyaml.Node{}
					s.Content = append(s.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: "openAPIV3Schema"}, o)
				} else {
					sym.Assert(false, "the version has a schema")
					continue
				}
			}
			if !input {
				schemas[name.Value] = k8s(o)
			}
			*o = rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: "SCHEMA"}
		}
	}
	if !input {
		return read(n), schemas
	}
	var b bytes.Buffer
	e := rawyaml.NewEncoder(&b)
	e.SetIndent(2)
	e.Encode(n)
	return read(decode(b.Bytes())[0]), nil
}

// k8s reads a node as kubectl does, with the rules of YAML 1.1.
func k8s(n *rawyaml.Node) any {
	b, err := rawyaml.Marshal(n)
	sym.Assert(err == nil, "the schema can be written")
	var x any
	err = goyaml.Unmarshal(b, &x)
	sym.Assert(err == nil, "the schema is valid YAML")
	return plain(x)
}

func plain(x any) any {
	switch v := x.(type) {
	case map[any]any:
		m := map[string]any{}
		for k, e := range v {
			s, ok := k.(string)
			sym.Assert(ok, "the keys are strings")
			m[s] = plain(e)
		}
		return m
	case map[string]any:
		m := map[string]any{}
		for k, e := range v {
			m[k] = plain(e)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i := range v {
			l[i] = plain(v[i])
		}
		return l
	case int:
		return int64(v)
	}
	return x
}

type manifest struct {
	file, text, kind string
	crd              bool
}

// run patches the manifests.
func run(ms []manifest, pkgs []*loader.Package, max *int) ([]*yml.File, error) {
	dir := vload.Scratch()
	for _, m := range ms {
		vload.Put(filepath.Join(dir, m.file), m.text)
	}
	rec := &yml.Recorder{}
	ctx := &genall.GenerationContext{
		Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{}, Roots: pkgs, InputRule: genall.InputFromFileSystem, OutputRule: rec,
	}
	err := schemapatcher.Generator{ManifestsPath: dir, MaxDescLen: max}.Generate(ctx)
	return rec.Files, err
}

// check compares what comes out with the manifests, given that they are valid.
func check(ms []manifest, pkgs []*loader.Package, max *int) []string {
	out, err := run(ms, pkgs, max)
	sym.Assert(err == nil, "valid manifests are patched")
	if err != nil {
		return nil
	}
	for _, p := range pkgs {
		sym.Assert(len(p.Errors) == 0, "valid types are reported as wrong")
	}
	n, limit := 0, -1
	if max != nil {
		limit = *max
	}
	var names []string
	for _, m := range ms {
		if m.crd {
			n++
			names = append(names, m.file)
		}
	}
	sym.Assert(len(out) == n, "every CRD manifest is written once, and nothing else")
	var seen []string
	for _, f := range out {
		seen = append(seen, f.Name)
		sym.Assert(f.Closed == 1 && f.Pkg == nil, "the file is closed")
		for _, m := range ms {
			if m.file != f.Name {
				continue
			}
			in, now := decode([]byte(m.text)), decode(f.Data)
			sym.Assert(len(in) == len(now), "no document is lost or added")
			for d := range in {
				if d > 0 || len(now) != len(in) { // only the first document of a file is looked at
					if d < len(now) {
						sym.Assert(sym.DeepEqual(read(in[d]), read(now[d])), "other documents of the file stay as they are")
					}
					continue
				}
				before, _ := patched(in[d], m.kind, true)
				after, got := patched(now[d], m.kind, false)
				sym.Assert(sym.DeepEqual(before, after), "everything but the schemas stays as it was")
				for v, s := range got {
					sym.Assert(sym.DeepEqual(s, schemas[fmt.Sprint(m.kind, v, limit)]), "the schema is the one generated for the version")
				}
			}
		}
	}
	again := append([]string{}, seen...)
	sort.Strings(again)
	sort.Strings(names)
	sym.Assert(sym.DeepEqual(again, names), "every CRD manifest is written once, and nothing else")
	sym.Reach("patched")
	return seen
}

// version is the text of an entry of spec.versions.
func version(id, name string, forms int) string {
	switch sym.Choose(id+".form", forms) {
	case 0:
		return "  - name: " + name + "\n    served: true # served\n    storage: false\n"
	case 1:
		return "  - name: " + name + " # the name\n    # about the schema\n    schema:\n      # about the validation\n      openAPIV3Schema:\n        # old\n        type: string\n        properties: {a: {}} # flow\n    # about served\n    served: true\n"
	case 2:
		return "  # before\n  - schema: {other: [1, \"2\"], openAPIV3Schema: {}}\n    additionalPrinterColumns:\n    - name: x\n      jsonPath: .schema\n    name: '" + name + "'\n"
	}
	return "  - {\"name\": \"" + name + "\", schema: {}, subresources: {status: {}}}\n"
}

func manifestOf(id, file, kind, versions string) manifest {
	text := "# head\n"
	form := 0
	if id == "doc" && (sym.Tier() == 1 || strings.Count(versions, "name: ") < 2) {
		form = sym.Choose(id+".head", 3+3*sym.Tier())
	}
	switch form % 3 {
	case 1:
		text = "---\n# head\n"
	case 2:
		text = "%YAML 1.1\n---\n"
	}
	text += "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: \"x.g.x\"\n  annotations: {schema: 'a', \"b\": yes} # flow\n" +
		"spec:\n  group: g.x\n"
	before := form == 1 || form > 3
	if before {
		text += "  versions: # all\n" + versions
	}
	text += "  names:\n    kind: " + kind + "\n    plural: xs\n  conversion: {strategy: None}\n  validation:\n    schema: {a: 1}\n"
	if !before {
		text += "  # about\n  versions:\n" + versions
	}
	text += "status:\n  versions: []\n# tail\n"
	return manifest{file: file, text: text, kind: kind, crd: true}
}

// H_C21_document: the manifest of a kind with one or two versions out of a loaded one, another loaded one with the same schema, and one without
// a type, in 4 forms each (with and without schema, with comments, in flow style), the rest of the document in 6 forms; with and without a
// package of the same version that lacks the kind; packages and versions enumerated in either order; description limit none, 0 or 15.
func H_C21_document() {
	names := []string{"v1", "v2beta1", "v0"}
	first := sym.Choose("first", 3)
	two := sym.Choose("two", 2) == 1
	forms := 4
	if two && sym.Tier() == 0 {
		forms = 2
	}
	vs := version("first", names[first], forms)
	order := 0
	if two {
		second := (first + 1 + sym.Choose("second", 2)) % 3
		vs += version("second", names[second], 2+2*sym.Tier())
		order = sym.Choose("order", 2)
	}
	kind := sym.Choose("kind", 3)
	m := manifestOf("doc", "m.yaml", []string{"A", "B", "Other"}[kind], vs)
	var max *int
	extra := false
	if kind == 0 {
		if n := sym.Choose("max", 3); n > 0 {
			n = (n - 1) * 15
			max = &n
		}
		extra = sym.Choose("extra", 2) == 1
	}
	sym.MapOrder(order)
	check([]manifest{m}, reset(extra), max)
}

// H_C21_directory: a directory with one or two of these: CRDs of several kinds, a CRD in a file with another document, other objects, other
// files and directories; enumerated in 4 orders.
func H_C21_directory() {
	plainVersion := "  - name: v2beta1\n    served: true\n"
	some := func(id string) manifest {
		switch sym.Choose(id, 8) {
		case 0:
			return manifestOf(id, id+"b.yaml", "B", plainVersion)
		case 1:
			m := manifestOf(id, id+".yaml", "Other", plainVersion)
			return m
		case 2:
			m := manifestOf(id, id+"two.yaml", "A", plainVersion)
			m.text += "---\n# second\nkind: Other\nb: [1]\n"
			return m
		case 3:
			return manifest{file: id + ".yaml", text: "apiVersion: v1\nkind: ConfigMap\n"}
		case 4:
			m := manifestOf(id, id+".yml", "A", plainVersion)
			m.crd = false
			return m
		case 5:
			return manifest{file: id + ".yaml", text: "a: {\n"}
		case 6:
			m := manifestOf(id, "sub.yaml/"+id+".yaml", "A", plainVersion)
			m.crd = false
			return m
		}
		return manifest{file: id + ".yaml", text: ""}
	}
	ms := []manifest{some("k"), manifestOf("m", "m.yaml", "A", "  - name: v1\n    schema: {}\n"), some("o")}
	sym.MapOrder(0)
	first := check(ms, reset(false), nil)
	sym.MapOrder(1 + sym.Choose("order", 1+3*sym.Tier()))
	out, _ := run(ms, reset(false), nil)
	var second []string
	for _, f := range out {
		second = append(second, f.Name)
	}
	sym.Assert(sym.DeepEqual(first, second), "the order in which manifests are written depends on an order of enumeration")
}

// H_C21_invalid: manifests that cannot be patched are reported and never a crash.
func H_C21_invalid() {
	good := "  - name: v1\n    served: true\n"
	m := manifestOf("m", "m.yaml", "A", good)
	what := sym.Choose("what", 12)
	bad := true
	switch what {
	case 0:
		m.text = strings.Replace(m.text, "apiextensions.k8s.io/v1", "apiextensions.k8s.io/v1beta1", 1)
	case 1:
		m.text = strings.Replace(m.text, "name: v1", "nombre: v1", 1)
		bad = false // no version of it is known
	case 2:
		m.text = strings.Replace(m.text, good, good+"  - served: false\n", 1)
	case 3:
		m.text = strings.Replace(m.text, good, good+"  - name: ''\n", 1)
	case 4:
		m.text = strings.Replace(m.text, good, good+"  - name: 5\n", 1)
	case 5:
		m.text = strings.Replace(m.text, good, good+"  - {}\n", 1)
	case 6:
		m.text = strings.Replace(m.text, good, good+"  - name: v2beta1\n    schema: [a]\n", 1)
	case 7:
		m.text = strings.Replace(m.text, good, good+"  - name: v2beta1\n    schema: text\n", 1)
	case 8:
		m.text = strings.Replace(m.text, good, good+"  - null\n", 1)
	case 9:
		m.text = strings.Replace(m.text, good, good+"  - name: v2beta1\n    schema: null\n", 1)
	case 10:
		m.text = strings.Replace(m.text, good, good+"  - {name: null}\n", 1)
	case 11:
		m.text = strings.Replace(m.text, good, good+"  - {name: [a]}\n", 1)
		bad = false // read as no manifest
	}
	out, err := run([]manifest{m}, reset(false), nil)
	sym.Assert((err != nil) == bad, fmt.Sprint("a manifest is wrongly accepted or rejected: ", what))
	if err != nil {
		sym.Assert(len(out) == 0, "nothing is written if a manifest cannot be patched")
		sym.Reach("rejected")
	}
}

// H_C21_names: two versions whose names are v followed by up to two arbitrary letters or digits; two kinds.
func H_C21_names() {
	const chars = "0123456789abcdefghijklmnopqrstuvwxyz"
	a, b := "v"+sym.StringOf("a", 1, 1+sym.Tier(), chars), "v"+sym.StringOf("b", 1, 2, chars)
	sym.Assume(!sym.StrEq(a, b))
	m := manifest{file: "m.yaml", crd: true, kind: []string{"A", "C"}[sym.Choose("kind", 2)]}
	m.text = "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec:\n  group: g.x\n  names:\n    kind: " + m.kind +
		"\n  versions:\n  - name: " + a + "\n    schema:\n      openAPIV3Schema: {type: string}\n  - schema: {}\n    name: " + b + "\n"
	check([]manifest{m}, reset(true), nil)
}

// H_C21_values: the rest of the document holds a plain scalar of up to 3 (thorough: 4) characters, a quoted one of up to 2 (thorough: 3) printable
// characters, and a comment of 2 printable characters.
func H_C21_values() {
	a := sym.StringOf("plain", 1, 3+sym.Tier(), "abcefnorstuxy0123456789.-+~_/")
	b := sym.StringOf("quoted", 0, 2+sym.Tier(), printable)
	c := sym.StringOf("comment", 0, 2, printable)
	what := sym.Choose("what", 3)
	text := "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\n"
	switch what {
	case 0:
		sym.Assume(a[0] != '-' && a[0] != '.')
		text += "metadata:\n  annotations:\n    a: " + a + "\n    b: [" + a + "]\n"
	case 1:
		text += "metadata:\n  annotations:\n    a: '" + strings.ReplaceAll(b, "'", "''") + "'\n"
	case 2:
		text += "# x" + c + "x\nmetadata: {}\n"
	}
	m := manifest{file: "m.yaml", crd: true, kind: "C"}
	m.text = text + "spec:\n  group: g.x\n  names:\n    kind: C\n  versions:\n  - name: v1\n"
	check([]manifest{m}, reset(true), nil)
}

const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
