package crdh

import (
	"sort"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	gvk "k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

func Setup_C13() { Setup_C12() }

// H_C13_markers: two or three packages that declare the same kind with any of 7 sets of markers each, among them ones that contradict each
// other (resource markers in several versions, skipped versions with other markers, repeated and malformed metadata), with arbitrary values:
// the CRD and the errors are the same in every order of enumerating packages and markers.
func H_C13_markers() {
	const k = "kubebuilder:"
	var vs []*version12
	n := 2 + sym.Choose("packages", 2)
	for i := 0; i < n; i++ {
		id := string(rune('p' + i))
		res := cm.Resource{Path: two2(id + "path"), Singular: two2(id + "sing"), ShortName: []string{two2(id + "short")}, Scope: []string{"", "Cluster"}[i%2]}
		sets := [][]given{
			{},
			{{k + "resource", res}, {k + "storageversion", cm.StorageVersion{}}},
			{{k + "skipversion", cm.SkipVersion{}}, {k + "subresource:status", cm.SubresourceStatus{}}, {k + "printcolumn", cm.PrintColumn{Name: "a"}}},
			{{k + "metadata", cm.Metadata{Labels: []string{"k=" + two2(id+"l")}}}, {k + "metadata", cm.Metadata{Labels: []string{"k=second"}, Annotations: []string{"bad"}}}},
			{{k + "skipversion", cm.SkipVersion{}}, {k + "resource", res}},
			{{k + "unservedversion", cm.UnservedVersion{}}, {k + "deprecatedversion", cm.DeprecatedVersion{}}},
			{{k + "subresource:scale", cm.SubresourceScale{SpecPath: "x"}}, {k + "subresource:status", cm.SubresourceStatus{}}, {k + "selectablefield", cm.SelectableField{JSONPath: "a"}}, {k + "storageversion", cm.StorageVersion{}}},
		}
		v := &version12{group: "g", name: []string{"v2", "v1", "v3"}[i], declares: true, desc: "d"}
		v.markers = sets[sym.Choose(id, len(sets))]
		vs = append(vs, v)
	}
	if sym.Choose("same", 2) == 1 {
		vs[1].name = vs[0].name
	}
	sym.MapOrder(0)
	c0, made0, e0 := build12(vs, "g", "Foo", nil)
	for o := 1; o <= 3; o++ {
		sym.MapOrder(o)
		c, made, e := build12(vs, "g", "Foo", nil)
		sym.Assert(sym.DeepEqual(c0, c) && made == made0, "the CRD depends on the order in which packages or markers are enumerated")
		sym.Assert(sym.DeepEqual(e0, e), "the reported errors depend on the order in which packages or markers are enumerated")
	}
	sym.Reach("compared")
}

// from source ---------------------------------------------------------------------------------------------------------

var (
	roots13 []*loader.Package
	meta13  *loader.Package
)

const (
	src13meta = `package v1

type TypeMeta struct {
	Kind string ` + "`json:\"kind,omitempty\"`" + `
}
type ObjectMeta struct {
	Name string ` + "`json:\"name,omitempty\"`" + `
}
type ListMeta struct {}
`
	src13a = `// +groupName=g.x
package v1

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
import "x.org/v2"

// A is documented.
// +kubebuilder:storageversion
// +kubebuilder:resource:path=alphas
type A struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	Spec Spec ` + "`json:\"spec\"`" + `
	Map map[string]v2.Shared ` + "`json:\"map\"`" + `
}
type Spec struct {
	// +kubebuilder:validation:Maximum=3
	// +kubebuilder:validation:Minimum=1
	// +optional
	X *int32 ` + "`json:\"x\"`" + `
	Shared v2.Shared ` + "`json:\"shared\"`" + `
	*Inline ` + "`json:\",inline\"`" + `
}
type Inline struct {
	// docs of y
	// +listType=map
	// +listMapKey=k
	Y []v2.Item ` + "`json:\"y\"`" + `
}
// +kubebuilder:subresource:status
// +kubebuilder:subresource:scale:specpath=.a,statuspath=.b
type B struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	Spec v2.Shared ` + "`json:\"spec\"`" + `
	Bad float64 ` + "`json:\"bad\"`" + `
	// the owner. It has an object of its own
	Owner *A ` + "`json:\"owner,omitempty\"`" + `
}
type NotAKind struct {
	metav1.TypeMeta ` + "`json:\",inline\"`" + `
}
type NotEither struct {
	Meta metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	metav1.TypeMeta ` + "`json:\",inline\"`" + `
}
type NorList struct {
	metav1.TypeMeta ` + "`json:\",inline\"`" + `
	metav1.ListMeta ` + "`json:\"metadata\"`" + `
	Items []A ` + "`json:\"items\"`" + `
}
`
	src13b = `// +groupName=g.x
// +versionName=v2beta1
package v2

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

type A struct {
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	Spec Shared ` + "`json:\"spec\"`" + `
}
// +kubebuilder:validation:XValidation:rule="a"
// +kubebuilder:validation:XValidation:rule="b"
type Shared struct {
	Items []Item ` + "`json:\"items,omitempty\"`" + `
	Key   Key ` + "`json:\"key\"`" + `
}
// +structType=atomic
type Item struct {
	K Key ` + "`json:\"k\"`" + `
}
// +kubebuilder:validation:Enum=a;b
// +kubebuilder:validation:MaxLength=5
type Key string
// +kubebuilder:storageversion
type B struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
}
`
)

func Setup_C13_source() {
	const m = "k8s.io/apimachinery/pkg/apis/meta/v1"
	var err error
	roots13, err = vload.Load([]*vload.Pkg{
		vload.One("x.org/v1", "v1", src13a, m, "x.org/v2"),
		vload.One("x.org/v2", "v2", src13b, m),
		vload.One(m, "v1", src13meta),
	}, "x.org/v1", "x.org/v2")
	if err != nil {
		panic(err)
	}
}

type result13 struct {
	crds  map[gvk.GroupKind]apiext.CustomResourceDefinition
	kinds []gvk.GroupKind
	errs  []string
}

// options13 tells whether CRDs are made with options: a maximum length of descriptions, and embedded metadata.
var options13 bool

// generate13 makes the CRDs of all kinds, or of those given, as the generator does.
func generate13(roots []*loader.Package, kinds []gvk.GroupKind, indexed bool) result13 {
	reg := &markers.Registry{}
	if err := cm.Register(reg); err != nil {
		panic(err)
	}
	p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{}, GenerateEmbeddedObjectMeta: options13}
	crd.AddKnownTypes(p)
	for _, r := range roots13 {
		r.Errors = nil
		for _, i := range r.Imports() {
			i.Errors = nil
		}
	}
	for _, r := range roots {
		p.NeedPackage(r)
	}
	var res result13
	res.kinds = crd.FindKubeKinds(p, crd.FindMetav1(roots))
	if kinds == nil {
		kinds = res.kinds
	}
	var max *int
	if options13 {
		n := 10
		max = &n
	}
	for _, k := range kinds {
		p.NeedCRDFor(k, max)
		crd.FixTopLevelMetadata(p.CustomResourceDefinitions[k])
	}
	res.crds = p.CustomResourceDefinitions
	for _, r := range roots13 {
		for _, e := range r.Errors {
			res.errs = append(res.errs, e.Msg)
		}
	}
	sort.Strings(res.errs)
	return res
}

var (
	gkA = gvk.GroupKind{Group: "g.x", Kind: "A"}
	gkB = gvk.GroupKind{Group: "g.x", Kind: "B"}
)

// H_C13_source: two packages with references between them and two kinds, from their source: kinds, CRDs and errors are the same for every
// order of the packages, of the kinds asked for, and of enumeration; a CRD is the same whether or not the other kind is asked for.
// With and without a maximum length of descriptions and embedded metadata.
func H_C13_source() {
	sym.MapOrder(0)
	options13 = sym.Choose("options", 2) == 1
	want := generate13([]*loader.Package{roots13[0], roots13[1]}, nil, true)
	sym.Assert(len(want.kinds) == 2 && want.kinds[0] == gkA && want.kinds[1] == gkB, "the kinds are the types with embedded type and object metadata")
	roots := []*loader.Package{roots13[0], roots13[1]}
	if sym.Choose("roots", 2) == 1 {
		roots = []*loader.Package{roots13[1], roots13[0]}
	}
	k := sym.Choose("kinds", 5)
	kinds := [][]gvk.GroupKind{nil, {gkA, gkB}, {gkB, gkA}, {gkA}, {gkB}}[k]
	sym.MapOrder(sym.Choose("order", 6))
	got := generate13(roots, kinds, true)
	sym.Assert(sym.DeepEqual(got.kinds, want.kinds), "the kinds found depend on an order of enumeration")
	for _, gk := range kinds {
		sym.Assert(sym.DeepEqual(got.crds[gk], want.crds[gk]), "a CRD depends on the order in which packages, types or kinds are enumerated")
	}
	if k < 3 {
		sym.Assert(sym.DeepEqual(got.crds, want.crds), "the CRDs depend on the order in which packages, types or kinds are enumerated")
		sym.Assert(sym.DeepEqual(got.errs, want.errs), "the errors depend on the order in which packages, types or kinds are enumerated")
	}
	sym.Reach("compared")
}

// H_C13_source_dependency: only one of the two packages is named; the other one is referred to by it. A CRD is the same whether or not the other
// kind is asked for first.
func H_C13_source_dependency() {
	options13 = false
	roots := []*loader.Package{roots13[0]}
	both := generate13(roots, []gvk.GroupKind{gkA, gkB}, false)
	sym.MapOrder(sym.Choose("order", 2))
	gk := []gvk.GroupKind{gkA, gkB}[sym.Choose("kind", 2)]
	one := generate13(roots, []gvk.GroupKind{gk}, false)
	after, alone := both.crds[gk], one.crds[gk]
	if gk == gkB && len(alone.Spec.Versions) == 1 && len(after.Spec.Versions) == 2 && after.Spec.Versions[1].Name == "v2beta1" {
		sym.Assert(false, "the CRD of B includes the version of v2, a package that was not named, only if the CRD of A was asked for before")
	}
	sym.Assert(sym.DeepEqual(after, alone), "a CRD depends on which kind was asked for before")
	sym.Reach("compared")
}

// H_C13_embedded: a schema and three branches, as embedded structs give them, with any of 8 lists of required names, properties, validation
// rules and an optional conflict each: the flattened schema and the errors are the same in every order of enumerating maps.
func H_C13_embedded() {
	part := func(id string) schema {
		s := schema{Type: "object", Properties: map[string]schema{}}
		lists := [][]string{nil, {"a"}, {"b", "a"}, {"c", "d", "e"}, {"e", "a", "f", "b"}, {"f", "e", "d", "c", "b", "a"}, {"g", "h"}, {"h", "a", "b", "c", "d", "e"}}
		s.Required = lists[sym.Choose(id, len(lists))]
		for _, r := range s.Required {
			s.Properties[r] = schema{Type: "string", Description: id + r}
		}
		if len(s.Required) == 2 {
			s.XValidations = apiext.ValidationRules{{Rule: two2(id)}}
			s.Properties["a"] = schema{Type: "integer", Format: id}
		}
		return s
	}
	s := part("own")
	s.AllOf = []schema{{AllOf: []schema{part("b0")}}, part("b1"), part("b2")}
	var rec0 recorder
	sym.MapOrder(0)
	want := crd.FlattenEmbedded(&s, &rec0)
	for o := 1; o <= 3; o++ {
		sym.MapOrder(o)
		var rec recorder
		got := crd.FlattenEmbedded(&s, &rec)
		sym.Assert(sym.DeepEqual(want, got), "the flattened schema depends on the order in which maps are enumerated")
		sym.Assert(len(rec.errs) == len(rec0.errs), "the reported errors depend on the order in which maps are enumerated")
	}
	sym.Reach("compared")
}
