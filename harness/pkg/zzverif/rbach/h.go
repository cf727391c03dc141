// Package rbach checks the rbac generator (C15, C16).
package rbach

import (
	"fmt"
	"strings"

	rbacv1 "k8s.io/api/rbac/v1"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

type marker struct {
	groups, resources, names, verbs, urls []string
	ns                                    string
}

var pkgs []*loader.Package
var reg *markers.Registry

const maxMarkers = 4

func Setup() {
	var src strings.Builder
	src.WriteString("package p\n\n")
	for i := 0; i < maxMarkers; i++ {
		fmt.Fprintf(&src, "//PLACEHOLDER%d\n", i)
	}
	src.WriteString("\ntype T struct{}\n")
	pkgs = nil
	p := vload.MustLoad([]*vload.Pkg{vload.One("example.com/p", "p", src.String())}, "example.com/p")
	p.NeedSyntax()
	pkgs = append(pkgs, p)
	reg = &markers.Registry{}
	if err := (rbac.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
}

const letters = "abcdefghijklmnopqrstuvwxyz"

// name is an arbitrary one-letter name.
func name(id string) string { return sym.StringOf(id, 1, 1, letters) }

func list(id string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, name(fmt.Sprintf("%s%d", id, i)))
	}
	return out
}

func (m marker) text() string {
	var parts []string
	add := func(k string, vs []string) {
		if len(vs) > 0 {
			parts = append(parts, k+"="+strings.Join(vs, ";"))
		}
	}
	add("groups", m.groups)
	add("resources", m.resources)
	add("resourceNames", m.names)
	add("verbs", m.verbs)
	add("urls", m.urls)
	if m.ns != "" {
		parts = append(parts, "namespace="+m.ns)
	}
	return "//+kubebuilder:rbac:" + strings.Join(parts, ",")
}

func generate(ms []marker) []any {
	repl := map[string]string{}
	for i := 0; i < maxMarkers; i++ {
		t := "// nothing"
		if i < len(ms) {
			t = ms[i].text()
		}
		repl[fmt.Sprintf("//PLACEHOLDER%d", i)] = t
	}
	vload.Subst(pkgs[0], repl)
	ctx := &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: pkgs}
	objs, err := rbac.GenerateRoles(ctx, "role")
	sym.Assert(err == nil, "well-formed rbac markers are accepted")
	sym.Assert(len(pkgs[0].Errors) == 0, "well-formed rbac markers produce no package error")
	return objs
}

func in(xs []string, s string, wild bool) bool {
	var cs []bool
	for _, x := range xs {
		if x == "\"*\"" {
			x = "*"
		}
		cs = append(cs, sym.StrEq(x, s))
		if wild {
			cs = append(cs, sym.StrEq(x, "*"))
		}
	}
	return sym.Or(cs...)
}

// request is an arbitrary API request.
type request struct{ group, resource, name, verb, url, ns string }

func grantsMarker(m marker, r request, url bool) bool {
	var gs []string
	for _, g := range m.groups {
		if sym.StrEq(g, "core") {
			g = ""
		}
		gs = append(gs, g)
	}
	ns := sym.StrEq(m.ns, r.ns)
	if url {
		return sym.And(ns, in(m.verbs, r.verb, true), in(m.urls, r.url, false))
	}
	return sym.And(ns, in(m.verbs, r.verb, true), in(gs, r.group, true), in(m.resources, r.resource, true),
		sym.Or(len(m.names) == 0, in(m.names, r.name, false)))
}

func grantsRules(rules []rbacv1.PolicyRule, r request, url bool) bool {
	var cs []bool
	for _, p := range rules {
		if url {
			cs = append(cs, sym.And(in(p.Verbs, r.verb, true), in(p.NonResourceURLs, r.url, false)))
			continue
		}
		cs = append(cs, sym.And(in(p.Verbs, r.verb, true), in(p.APIGroups, r.group, true), in(p.Resources, r.resource, true),
			sym.Or(len(p.ResourceNames) == 0, in(p.ResourceNames, r.name, false))))
	}
	return sym.Or(cs...)
}

func grantsObjs(objs []any, r request, url bool) bool {
	var cs []bool
	for _, o := range objs {
		switch x := o.(type) {
		case rbacv1.ClusterRole:
			cs = append(cs, sym.And(sym.StrEq(r.ns, ""), grantsRules(x.Rules, r, url)))
		case rbacv1.Role:
			cs = append(cs, sym.And(sym.StrEq(r.ns, x.Namespace), grantsRules(x.Rules, r, url)))
		default:
			sym.Assert(false, "unexpected object kind")
		}
	}
	return sym.Or(cs...)
}

// check compares what the markers ask for with what the objects grant, for an arbitrary request.
func check(ms []marker, group string, url bool, ns string) {
	objs := generate(ms)
	r := request{group: group, resource: name("req.resource"), name: name("req.name"), verb: name("req.verb"), ns: ns}
	if url {
		r.url = "/" + name("req.url")
	}
	var want []bool
	for _, m := range ms {
		want = append(want, grantsMarker(m, r, url))
	}
	got := grantsObjs(objs, r, url)
	w := sym.Or(want...)
	sym.Reach("checked")
	sym.Assert(sym.Implies(w, got), "a permission asked for by a marker is missing from the generated roles")
	sym.Assert(sym.Implies(got, w), "the generated roles grant a permission that no marker asks for")
}

// H_C15_Merge: 3 markers in the cluster role with one shared resource; marker 0 has 2 groups, the others 1; 1 verb each; all names arbitrary
// one-letter names; an arbitrary request; two map orders.
func H_C15_Merge() {
	sym.MapOrder(sym.Choose("order", 2))
	res := list("res", 1)
	ms := []marker{
		{groups: list("m0.g", 2), resources: res, verbs: list("m0.v", 1)},
		{groups: list("m1.g", 1), resources: res, verbs: list("m1.v", 1)},
		{groups: list("m2.g", 1), resources: res, verbs: list("m2.v", 1)},
	}
	check(ms, name("req.group"), false, "")
}

// H_C15_Resources: 2 markers, 1-2 resources and 1-2 verbs each, shared group; arbitrary one-letter names; an arbitrary request.
func H_C15_Resources() {
	sym.MapOrder(sym.Choose("order", 2))
	g := list("g", 1)
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		ms = append(ms, marker{groups: g, resources: list(id+"r", 1+sym.Choose(id+"nr", 2)), verbs: list(id+"v", 1+sym.Choose(id+"nv", 2))})
	}
	check(ms, name("req.group"), false, "")
}

// H_C15_Names: 2 markers with 0-2 resource names each, shared group, a resource each, one verb each; arbitrary one-letter names.
func H_C15_Names() {
	g := list("g", 1)
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		ms = append(ms, marker{groups: g, resources: list(id+"r", 1), names: list(id+"n", sym.Choose(id+"nn", 3)), verbs: list(id+"v", 1)})
	}
	check(ms, name("req.group"), false, "")
}

// H_C15_SharedNames: 2 markers for the same 0-2 (0-3) resource names, shared group, a resource each, 1-2 verbs each, arbitrary one-letter names.
func H_C15_SharedNames() {
	g, n := list("g", 1), list("n", sym.Choose("nn", 3+sym.Tier()))
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		ms = append(ms, marker{groups: g, resources: list(id+"r", 1), names: n, verbs: list(id+"v", 1+sym.Choose(id+"nv", 2))})
	}
	check(ms, name("req.group"), false, "")
}

// odd is one of several texts made of the characters that rules are keyed with.
func odd(id string) string {
	return []string{"a", "b", "a&b", "a + b", "a%26b", "a%"}[sym.Choose(id, 6)]
}

// H_C15_Separators: 2 markers that differ in their resources, resource names or URLs, which are made of separators of the keys, 1-2 of them each;
// every request for one of them.
func H_C15_Separators() {
	what := sym.Choose("what", 3)
	verbs := [][]string{{"get", "get"}, {"get", "list"}}[sym.Choose("verbs", 2)]
	var ms []marker
	var all []string
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		xs := []string{odd(id + "0")}
		if sym.Choose(id+"two", 2) == 1 {
			xs = append(xs, odd(id+"1"))
		}
		all = append(all, xs...)
		var quoted []string
		for _, x := range xs {
			quoted = append(quoted, "\""+x+"\"")
		}
		m := marker{groups: []string{"g"}, verbs: []string{verbs[i]}}
		switch what {
		case 0:
			m.resources = quoted
		case 1:
			m.resources, m.names = []string{"r"}, quoted
		case 2:
			m.urls = quoted
		}
		ms = append(ms, m)
	}
	objs := generate(ms)
	for i := range ms {
		for _, l := range []*[]string{&ms[i].resources, &ms[i].names, &ms[i].urls} {
			var plain []string
			for _, q := range *l {
				plain = append(plain, strings.Trim(q, "\""))
			}
			*l = plain
		}
	}
	for _, x := range all {
		for _, v := range verbs {
			r := request{group: "g", resource: "r", verb: v}
			switch what {
			case 0:
				r.resource = x
			case 1:
				r.name = x
			case 2:
				r.url = x
			}
			want := sym.Or(grantsMarker(ms[0], r, what == 2), grantsMarker(ms[1], r, what == 2))
			sym.Assert(sym.Iff(want, grantsObjs(objs, r, what == 2)), "the generated roles grant exactly what the markers ask for")
		}
	}
	sym.Reach("checked")
}

// H_C15_Fields: a marker for a resource with a resource name, and one for a resource with a name and a URL or two, all made of separators of
// the keys, with the same verb; every request for one of them.
func H_C15_Fields() {
	odds := []string{"a", "a + b", "a + b + ", "b", "b + ", " + "}
	pick := func(id string) string { return odds[sym.Choose(id, len(odds))] }
	x, y, z := pick("x"), pick("y"), pick("z")
	second := sym.Choose("second", 2) == 1
	var ms []marker
	for i := 0; i < 2; i++ { // quoted, then as they are
		q := "\""
		if i == 1 {
			q = ""
		}
		m0 := marker{groups: []string{"g"}, resources: []string{"r"}, names: []string{q + x + q}, verbs: []string{"get"}}
		m1 := marker{groups: []string{"g"}, resources: []string{"s"}, names: []string{q + y + q}, urls: []string{q + z + q}, verbs: []string{"get"}}
		if second {
			m0.urls = []string{q + "b" + q}
		}
		if i == 0 {
			ms = []marker{m0, m1}
			continue
		}
		objs := generate(ms)
		ms = []marker{m0, m1}
		for _, res := range []string{"r", "s"} {
			for _, n := range []string{x, y} {
				r := request{group: "g", resource: res, name: n, verb: "get"}
				want := sym.Or(grantsMarker(ms[0], r, false), grantsMarker(ms[1], r, false))
				sym.Assert(sym.Iff(want, grantsObjs(objs, r, false)), "the generated roles grant exactly what the markers ask for")
			}
		}
		for _, u := range []string{z, "b", "a"} {
			r := request{url: u, verb: "get"}
			want := sym.Or(grantsMarker(ms[0], r, true), grantsMarker(ms[1], r, true))
			sym.Assert(sym.Iff(want, grantsObjs(objs, r, true)), "the generated roles grant exactly what the markers ask for")
		}
	}
	sym.Reach("checked")
}

// H_C15_URLs: 2 markers with 0-2 URLs each, and 0-1 groups and 0-1 resources each; arbitrary names; a URL request or a resource request.
func H_C15_URLs() {
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		var urls []string
		for _, u := range list(id+"u", sym.Choose(id+"nu", 3)) {
			urls = append(urls, "/"+u)
		}
		ms = append(ms, marker{groups: list(id+"g", sym.Choose(id+"ng", 2)), resources: list(id+"r", sym.Choose(id+"nr", 2)), urls: urls, verbs: list(id+"v", 1)})
	}
	check(ms, name("req.group"), sym.Choose("urlreq", 2) == 1, "")
}

// H_C15_Namespaces: 2 (3) markers, each cluster-wide or in an arbitrary one-letter namespace; one verb each, for one resource, for a URL or for both
// or neither; a request of either kind.
func H_C15_Namespaces() {
	var ms []marker
	n := 2 + sym.Tier()
	g, r := list("g", 1), list("r", 1)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("m%d.", i)
		m := marker{groups: g, resources: r, verbs: list(id+"v", 1)}
		if sym.Choose(id+"ns", 2) == 1 {
			m.ns = name(id + "namespace")
		}
		switch sym.Choose(id+"what", 4) {
		case 1:
			m.resources, m.urls = nil, []string{"/" + name(id+"u")}
		case 2:
			m.urls = []string{"/" + name(id+"u")}
		case 3:
			m.resources = nil
		}
		ms = append(ms, m)
	}
	url := sym.Choose("urlreq", 2) == 1
	ns := ""
	if sym.Choose("req.ns", 2) == 1 {
		ns = name("req.namespace")
	}
	check(ms, name("req.group"), url, ns)
}

// H_C15_Wild: 2 markers whose verbs, groups and resources are each "*" or an arbitrary name ("core" included for groups).
func H_C15_Wild() {
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		m := marker{groups: list(id+"g", 1), resources: list(id+"r", 1), verbs: list(id+"v", 2)}
		switch sym.Choose(id+"wg", 3) {
		case 1:
			m.groups = []string{"\"*\""}
		case 2:
			m.groups = append(m.groups, "core")
		}
		if sym.Choose(id+"wr", 2) == 1 {
			m.resources = []string{"\"*\""}
		}
		if sym.Choose(id+"wv", 2) == 1 {
			m.verbs[1] = "\"*\""
		}
		ms = append(ms, m)
	}
	g := ""
	if sym.Choose("req.g", 2) == 1 {
		g = name("req.group")
	}
	check(ms, g, false, "")
}
