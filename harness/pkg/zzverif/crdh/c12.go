package crdh

import (
	"fmt"
	"go/ast"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	gvk "k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

// version12 is a package of a group that may declare the kind.
type version12 struct {
	group, name string
	declares    bool
	markers     []given
	desc        string
	pkg         *loader.Package
}

var pkgs12 []*loader.Package

func Setup_C12() {
	var ps []*vload.Pkg
	var roots []string
	for i := 0; i < 3; i++ {
		roots = append(roots, fmt.Sprintf("x.org/p%d", i))
		ps = append(ps, vload.One(roots[i], "p", "package p\n"))
	}
	var err error
	if pkgs12, err = vload.Load(ps, roots...); err != nil {
		panic(err)
	}
}

// build12 asks for the CRD of a kind. The packages get their schemata ready-made.
func build12(vs []*version12, group, kind string, maxDesc *int) (got apiext.CustomResourceDefinition, made bool, errs []string) {
	p := &crd.Parser{
		GroupVersions:     map[*loader.Package]gvk.GroupVersion{},
		Types:             map[crd.TypeIdent]*markers.TypeInfo{},
		FlattenedSchemata: map[crd.TypeIdent]apiext.JSONSchemaProps{},
	}
	for i, v := range vs {
		v.pkg = pkgs12[i]
		v.pkg.Errors = nil
		p.GroupVersions[v.pkg] = gvk.GroupVersion{Group: v.group, Version: v.name}
		other := crd.TypeIdent{Package: v.pkg, Name: "Other"}
		p.Types[other] = &markers.TypeInfo{Name: "Other", RawSpec: &ast.TypeSpec{Name: ast.NewIdent("Other")}, Markers: markers.MarkerValues{
			"kubebuilder:resource": {cm.Resource{Path: "nope", Scope: "Cluster"}}, "kubebuilder:skipversion": {cm.SkipVersion{}}}}
		if !v.declares {
			continue
		}
		id := crd.TypeIdent{Package: v.pkg, Name: kind}
		ms := markers.MarkerValues{}
		for _, m := range v.markers {
			ms[m.name] = append(ms[m.name], m.val)
		}
		p.Types[id] = &markers.TypeInfo{Name: kind, RawSpec: &ast.TypeSpec{Name: ast.NewIdent(kind)}, Markers: ms}
		p.FlattenedSchemata[id] = apiext.JSONSchemaProps{Type: "object", Description: v.desc, Properties: map[string]apiext.JSONSchemaProps{fmt.Sprint("f", i): {Type: "string"}}}
	}
	gk := gvk.GroupKind{Group: group, Kind: kind}
	p.NeedCRDFor(gk, maxDesc)
	p.NeedCRDFor(gk, maxDesc) // asking again changes nothing
	got, made = p.CustomResourceDefinitions[gk]
	for i, v := range vs {
		for _, e := range v.pkg.Errors {
			errs = append(errs, e.Msg)
		}
		if v.declares {
			s := p.FlattenedSchemata[crd.TypeIdent{Package: v.pkg, Name: kind}]
			sym.Assert(s.Description == v.desc && len(s.Properties) == 1 && s.Properties[fmt.Sprint("f", i)].Type == "string", "making a CRD leaves the schemata of the types as they were")
		}
	}
	return got, made, errs
}

// expect12 is the CRD that is due, for markers of which at most one package's are resource markers.
func expect12(vs []*version12, group, kind, plural string, maxDesc *int) (want apiext.CustomResourceDefinition, bad bool) {
	want.APIVersion, want.Kind = "apiextensions.k8s.io/v1", "CustomResourceDefinition"
	want.Spec.Group = group
	want.Spec.Names = apiext.CustomResourceDefinitionNames{Kind: kind, ListKind: kind + "List", Plural: plural, Singular: strings.ToLower(kind)}
	want.Spec.Scope = "Namespaced"
	malformed := false
	for i, v := range vs {
		if v.group != group || !v.declares {
			continue
		}
		ver := apiext.CustomResourceDefinitionVersion{Name: v.name, Served: true}
		desc := v.desc
		if maxDesc != nil && *maxDesc == 0 {
			desc = ""
		}
		ver.Schema = &apiext.CustomResourceValidation{OpenAPIV3Schema: &schema{Type: "object", Description: desc, Properties: map[string]apiext.JSONSchemaProps{fmt.Sprint("f", i): {Type: "string"}}}}
		skip := false
		subs := func() *apiext.CustomResourceSubresources {
			if ver.Subresources == nil {
				ver.Subresources = &apiext.CustomResourceSubresources{}
			}
			return ver.Subresources
		}
		for _, m := range v.markers {
			switch x := m.val.(type) {
			case cm.StorageVersion:
				ver.Storage = true
			case cm.SkipVersion:
				skip = true
			case cm.UnservedVersion:
				ver.Served = false
			case cm.DeprecatedVersion:
				ver.Deprecated, ver.DeprecationWarning = true, x.Warning
			case cm.SubresourceStatus:
				subs().Status = &apiext.CustomResourceSubresourceStatus{}
			case cm.SubresourceScale:
				subs().Scale = &apiext.CustomResourceSubresourceScale{SpecReplicasPath: x.SpecPath, StatusReplicasPath: x.StatusPath, LabelSelectorPath: x.SelectorPath}
			case cm.PrintColumn:
				subs() // harmless: an empty object
				ver.AdditionalPrinterColumns = append(ver.AdditionalPrinterColumns, apiext.CustomResourceColumnDefinition{Name: x.Name, Type: x.Type, JSONPath: x.JSONPath, Description: x.Description, Format: x.Format, Priority: x.Priority})
			case cm.SelectableField:
				ver.SelectableFields = append(ver.SelectableFields, apiext.SelectableField{JSONPath: x.JSONPath})
			case cm.Resource:
				if x.Path != "" {
					want.Spec.Names.Plural = x.Path
				}
				if x.Singular != "" {
					want.Spec.Names.Singular = x.Singular
				}
				want.Spec.Names.ShortNames, want.Spec.Names.Categories = x.ShortName, x.Categories
				if x.Scope != "" {
					want.Spec.Scope = apiext.ResourceScope(x.Scope)
				}
			case cm.Metadata:
				for k, list := range [][]string{x.Annotations, x.Labels} {
					for _, s := range list {
						key, val, ok := strings.Cut(s, "=")
						if !ok {
							malformed = true
							break
						}
						to := &want.Annotations
						if k == 1 {
							to = &want.Labels
						}
						if *to == nil {
							*to = map[string]string{}
						}
						(*to)[key] = val
					}
				}
			}
		}
		if !skip {
			at := len(want.Spec.Versions)
			for at > 0 && ver.Name < want.Spec.Versions[at-1].Name {
				at--
			}
			l := append(want.Spec.Versions, apiext.CustomResourceDefinitionVersion{})
			copy(l[at+1:], l[at:])
			l[at] = ver
			want.Spec.Versions = l
		}
	}
	want.ObjectMeta = metav1.ObjectMeta{Name: want.Spec.Names.Plural + "." + group, Annotations: want.Annotations, Labels: want.Labels}
	if len(want.Spec.Versions) == 1 {
		want.Spec.Versions[0].Storage = true
	}
	stored, served := false, false
	for _, v := range want.Spec.Versions {
		stored = stored || v.Storage
		served = served || v.Served
	}
	return want, malformed || len(want.Spec.Versions) > 0 && !(stored && served)
}

func check12(vs []*version12, group, kind, plural string, maxDesc *int) {
	got, made, errs := build12(vs, group, kind, maxDesc)
	want, bad := expect12(vs, group, kind, plural, maxDesc)
	sym.Assert((len(errs) > 0) == bad, "exactly a CRD without a storage version or without a served version, or with malformed metadata, is an error")
	sym.Assert(made == (len(want.Spec.Versions) > 0), "there is a CRD exactly if some package declares the kind and does not skip its version")
	if !made || bad {
		sym.Reach("none or error")
		return
	}
	for i := range want.Spec.Versions {
		w := &want.Spec.Versions[i]
		if w.Subresources != nil && w.Subresources.Status == nil && w.Subresources.Scale == nil {
			w.Subresources = nil
		}
	}
	for i := range got.Spec.Versions {
		w := &got.Spec.Versions[i]
		if w.Subresources != nil && w.Subresources.Status == nil && w.Subresources.Scale == nil {
			w.Subresources = nil
		}
	}
	sym.Assert(got.Name == want.Spec.Names.Plural+"."+group, "a CRD is named after its plural and its group")
	sym.Assert(sym.DeepEqual(got.Spec.Names, want.Spec.Names) && got.Spec.Scope == want.Spec.Scope && got.Spec.Group == group, "a CRD has its kind's names, group and scope")
	sym.Assert(len(got.Spec.Versions) == len(want.Spec.Versions), "a CRD has one version per package that declares the kind and does not skip it")
	for i := range want.Spec.Versions {
		sym.Assert(got.Spec.Versions[i].Name == want.Spec.Versions[i].Name, "versions are sorted by name")
		sym.Assert(sym.DeepEqual(got.Spec.Versions[i], want.Spec.Versions[i]), "a version has its own schema and exactly the settings of its own markers")
	}
	sym.Assert(sym.DeepEqual(got, want), "a CRD says nothing else")
	sym.Reach("made")
}

func two2(id string) string { return sym.StringOf(id, 2, 2, "av12") }

// versionMarkers are sets of markers that change a version: every single one, with any values, and combinations.
func versionMarkers(id string, few bool) []given {
	const k = "kubebuilder:"
	sel := two2(id + "s")
	warn := two2(id + "w")
	prio := int32(7)
	if !few {
		prio = sym.Int32(id)
	}
	all := []given{
		{k + "storageversion", cm.StorageVersion{}},
		{k + "skipversion", cm.SkipVersion{}},
		{k + "unservedversion", cm.UnservedVersion{}},
		{k + "deprecatedversion", cm.DeprecatedVersion{Warning: &warn}},
		{k + "subresource:status", cm.SubresourceStatus{}},
		{k + "subresource:scale", cm.SubresourceScale{SpecPath: two(id + "a"), StatusPath: two(id + "b"), SelectorPath: &sel}},
		{k + "printcolumn", cm.PrintColumn{Name: two(id + "c"), Type: two(id + "d"), JSONPath: two(id + "e"), Description: two(id + "f"), Format: two(id + "g"), Priority: prio}},
		{k + "selectablefield", cm.SelectableField{JSONPath: two(id + "h")}},
		{k + "printcolumn", cm.PrintColumn{Name: "second"}},
		{k + "selectablefield", cm.SelectableField{JSONPath: "second"}},
		{k + "deprecatedversion", cm.DeprecatedVersion{}},
		{k + "subresource:scale", cm.SubresourceScale{}},
	}
	sets := [][]int{{}, {0}, {1}, {2}, {0, 2}, {1, 4}, {3, 5, 6, 8}, {4, 7, 9}, {0, 1, 3, 4, 5, 6, 7}, {10}, {11, 4}, {0, 4, 6}, {1, 6}}
	if few {
		sets = [][]int{{}, {0}, {1}, {0, 2, 4, 6}}
	}
	var out []given
	for _, i := range sets[sym.Choose(id+".markers", len(sets))] {
		out = append(out, all[i])
	}
	return out
}

// H_C12_versions: up to three packages, each in the CRD's group or another one, declaring the kind or not, with any one of 13 sets of
// version markers with arbitrary values, under version names in any order, in any order of enumeration.
func H_C12_versions() {
	n := 1 + sym.Choose("packages", 3)
	names := []string(nil)
	if n == 3 {
		names = [][]string{{"v1", "v2", "v10"}, {"v2", "v1", "v1beta1"}, {"v2", "v3", "v1"}, {"v3", "v2", "v1"}}[sym.Choose("names", 4)]
	}
	var vs []*version12
	for i := 0; i < n; i++ {
		v := &version12{group: "g.x", declares: true, desc: "d"}
		id := string(rune('p' + i))
		if n == 3 {
			v.name = names[i]
		} else {
			v.name = sym.StringOf(id+".version", 1, 2, "v12")
			for _, o := range vs {
				sym.Assume(o.name != v.name)
			}
		}
		switch sym.Choose(id+".is", 3) {
		case 1:
			v.group = "h.x"
			v.markers = versionMarkers(id, true)
		case 2:
			v.declares = false
		default:
			v.markers = versionMarkers(id, n == 3 || i > 0)
		}
		vs = append(vs, v)
	}
	sym.MapOrder(sym.Choose("order", 2))
	check12(vs, "g.x", "Foo", "foos", nil)
}

// H_C12_resource: kinds with regular and irregular plurals, a resource marker with any path, names, categories and scope, metadata markers
// with any two annotations and labels, in a package next to another version; descriptions kept or dropped.
func H_C12_resource() {
	k := sym.Choose("kind", 4)
	kind, plural := []string{"Foo", "Policy", "Fish", "HTTPRoute"}[k], []string{"foos", "policies", "fish", "httproutes"}[k]
	v1 := &version12{group: "g", name: "v1", declares: true, desc: "some text", markers: []given{{"kubebuilder:storageversion", cm.StorageVersion{}}}}
	v2 := &version12{group: "g", name: "v2", declares: sym.Choose("second", 2) == 1}
	if sym.Choose("resource", 2) == 1 {
		r := cm.Resource{Path: sym.StringOf("path", 0, 2, "abc"), Singular: sym.StringOf("singular", 0, 2, "abc"), Scope: oneOf("scope", "", "Cluster", "Namespaced")}
		switch sym.Choose("lists", 3) {
		case 1:
			r.ShortName = []string{two("short"), two("short2")}
		case 2:
			r.Categories = []string{two("cat"), "all"}
		}
		v1.markers = append(v1.markers, given{"kubebuilder:resource", r})
	}
	eq := func(id string) string {
		s := sym.StringOf(id, 0, 3, "a=b")
		return s
	}
	switch sym.Choose("metadata", 4) {
	case 1:
		v1.markers = append(v1.markers, given{"kubebuilder:metadata", cm.Metadata{Annotations: []string{eq("ann"), "x=y=z"}}})
	case 2:
		v1.markers = append(v1.markers, given{"kubebuilder:metadata", cm.Metadata{Labels: []string{"x=", eq("lab")}}})
	case 3:
		v1.markers = append(v1.markers, given{"kubebuilder:metadata", cm.Metadata{Labels: []string{"l=1"}, Annotations: []string{"a=2"}}},
			given{"kubebuilder:metadata", cm.Metadata{Labels: []string{"m=1"}, Annotations: []string{"b=2"}}})
	}
	var max *int
	if m := sym.Choose("maxDesc", 3); m > 0 {
		n := (m - 1) * 100
		max = &n
	}
	check12([]*version12{v2, v1}, "g", kind, plural, max)
}

// H_C12_metadata: the top-level metadata property of every version's schema is an object without properties, whatever it was; the rest of
// the schema stays.
func H_C12_metadata() {
	var c, w apiext.CustomResourceDefinition
	n := sym.Choose("versions", 4)
	for i := 0; i < n; i++ {
		id := fmt.Sprint("v", i)
		v := apiext.CustomResourceDefinitionVersion{Name: id}
		x := v
		switch sym.Choose(id, 5) {
		case 1:
			v.Schema = &apiext.CustomResourceValidation{}
			x.Schema = &apiext.CustomResourceValidation{}
		case 2:
			v.Schema = &apiext.CustomResourceValidation{OpenAPIV3Schema: &schema{Description: text(id)}}
			x.Schema = v.Schema.DeepCopy()
		case 3, 4:
			s := schema{Description: text(id), Properties: map[string]apiext.JSONSchemaProps{
				"metadata": {Type: text(id + "t"), Description: text(id + "d"), Properties: map[string]apiext.JSONSchemaProps{"name": {Type: "string"}}},
				"spec":     {Properties: map[string]apiext.JSONSchemaProps{"metadata": {Type: "string"}}},
			}}
			if sym.Choose(id+".none", 2) == 1 {
				delete(s.Properties, "metadata")
			}
			v.Schema = &apiext.CustomResourceValidation{OpenAPIV3Schema: &s}
			x.Schema = v.Schema.DeepCopy()
			if _, ok := s.Properties["metadata"]; ok {
				x.Schema.OpenAPIV3Schema.Properties["metadata"] = apiext.JSONSchemaProps{Type: "object"}
			}
		}
		c.Spec.Versions = append(c.Spec.Versions, v)
		w.Spec.Versions = append(w.Spec.Versions, x)
	}
	crd.FixTopLevelMetadata(c)
	sym.Assert(sym.DeepEqual(c, w), "only the top-level metadata properties become plain objects")
	sym.Reach("fixed")
}
