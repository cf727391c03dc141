package rbach

import (
	"fmt"

	rbacv1 "k8s.io/api/rbac/v1"

	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

func same(a, b []any) {
	sym.Reach("compared")
	sym.Assert(sym.DeepEqual(a, b), "the roles depend on the order or repetition of markers or values, or on map order")
}

func ascending(xs []string, what string) {
	for i := 1; i < len(xs); i++ {
		sym.Assert(xs[i-1] < xs[i], what+" are not sorted and free of duplicates")
	}
}

// canonical checks the form of generated roles.
func canonical(objs []any) {
	prev := ""
	for i, o := range objs {
		var rules []rbacv1.PolicyRule
		switch x := o.(type) {
		case rbacv1.ClusterRole:
			sym.Assert(i == 0, "the cluster role does not come first")
			sym.Assert(x.Kind == "ClusterRole" && x.APIVersion == "rbac.authorization.k8s.io/v1" && x.Name == "role" && x.Namespace == "", "cluster role identity")
			rules = x.Rules
		case rbacv1.Role:
			sym.Assert(x.Kind == "Role" && x.APIVersion == "rbac.authorization.k8s.io/v1" && x.Name == "role", "role identity")
			sym.Assert(prev < x.Namespace, "roles are not one per namespace in order")
			prev = x.Namespace
			rules = x.Rules
		default:
			sym.Assert(false, "unexpected object kind")
		}
		sym.Assert(len(rules) > 0, "a role without rules was generated")
		for _, r := range rules {
			ascending(r.APIGroups, "groups")
			ascending(r.Resources, "resources")
			ascending(r.ResourceNames, "resource names")
			ascending(r.Verbs, "verbs")
			ascending(r.NonResourceURLs, "URLs")
			for _, v := range r.Verbs {
				sym.Assert(v != "*" || len(r.Verbs) == 1, "a * verb does not stand alone")
			}
			for _, g := range r.APIGroups {
				sym.Assert(g != "core", "the core group is not written as the empty string")
			}
		}
	}
	sym.Reach("canonical")
}

func perm(ms []marker, k int) []marker {
	var out []marker
	rest := append([]marker(nil), ms...)
	for len(rest) > 0 {
		i := k % len(rest)
		k /= len(rest)
		out = append(out, rest[i])
		rest = append(append([]marker(nil), rest[:i]...), rest[i+1:]...)
	}
	return out
}

func rev(xs []string) []string {
	var out []string
	for i := len(xs) - 1; i >= 0; i-- {
		out = append(out, xs[i])
	}
	return out
}

// H_C16_Order: 3 markers (marker 0 with 2 groups and 2 verbs, the others with one of each, shared resource or own); every order of the
// markers and of the values in marker 0; several map orders.
func H_C16_Order() {
	res := list("res", 1)
	r2 := res
	if sym.Choose("ownres", 2) == 1 {
		r2 = list("res2", 1)
	}
	ms := []marker{
		{groups: list("m0.g", 2), resources: res, verbs: list("m0.v", 1)},
		{groups: list("m1.g", 1), resources: res, verbs: list("m1.v", 1)},
		{groups: list("m2.g", 1), resources: r2, verbs: list("m2.v", 1)},
	}
	a := generate(ms)
	canonical(a)
	k := 1 + sym.Choose("perm", 5)
	ms2 := perm(ms, k)
	for i := range ms2 {
		ms2[i].groups = rev(ms2[i].groups)
	}
	sym.MapOrder(k % 3)
	same(a, generate(ms2))
}

// H_C16_Repeat: 2 markers with resources, names, verbs and URLs lists of 0-2 arbitrary values; repeating a marker, or a value inside a
// marker, changes nothing.
func H_C16_Repeat() {
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		m := marker{groups: []string{"g"}, resources: list(id+"r", 1), verbs: list(id+"v", 1)}
		switch sym.Choose(id+"shape", 5) {
		case 1:
			m.names = list(id+"n", 2)
		case 2:
			m.verbs = list(id+"v'", 2)
		case 3:
			m.urls = []string{"/" + name(id+"u0"), "/" + name(id+"u1")}
		case 4:
			m.resources = list(id+"r'", 2)
		}
		ms = append(ms, m)
	}
	a := generate(ms)
	canonical(a)
	dup := func(xs []string) []string {
		if len(xs) == 0 {
			return nil
		}
		return append(rev(xs), xs[0])
	}
	ms2 := []marker{ms[1], ms[0], {groups: dup(ms[1].groups), resources: dup(ms[1].resources), names: dup(ms[1].names), verbs: dup(ms[1].verbs), urls: dup(ms[1].urls)}}
	sym.MapOrder(1)
	same(a, generate(ms2))
}

// H_C16_Star: 2 markers with 2 verbs each ("*" or arbitrary; also a third that sorts before "*"), groups "core" or arbitrary, in the cluster or one of two arbitrary namespaces;
// one of them may be for a URL.
func H_C16_Star() {
	var ms []marker
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("m%d.", i)
		m := marker{groups: list(id+"g", 1), resources: []string{"r"}, verbs: list(id+"v", 2)}
		switch sym.Choose(id+"star", 3) {
		case 1:
			m.verbs[1] = "\"*\""
		case 2:
			m.verbs = append(m.verbs[:1], "\"*\"", "\"!\"")
		}
		switch sym.Choose(id+"core", 3) {
		case 1:
			m.groups = append(m.groups, "core")
		case 2:
			m.groups = []string{"core", "\"\""}
		}
		if sym.Choose(id+"ns", 2) == 1 {
			m.ns = name(id + "ns.name")
		} else if i == 0 && len(m.groups) == 1 && sym.Choose("url", 2) == 1 {
			m.groups, m.resources, m.urls = nil, nil, []string{"/u"}
		}
		ms = append(ms, m)
	}
	a := generate(ms)
	canonical(a)
	for _, m := range ms {
		for _, v := range m.verbs {
			if v == "\"*\"" {
				sym.Assert(hasStar(a, m.ns), "a rule with a * verb is not written with *")
			}
		}
	}
	sym.MapOrder(1)
	same(a, generate([]marker{ms[1], ms[0]}))
}

// hasStar tells whether the role of a namespace has a rule with a * verb.
func hasStar(objs []any, ns string) bool {
	for _, o := range objs {
		var rules []rbacv1.PolicyRule
		switch x := o.(type) {
		case rbacv1.ClusterRole:
			if ns == "" {
				rules = x.Rules
			}
		case rbacv1.Role:
			if ns == x.Namespace {
				rules = x.Rules
			}
		}
		for _, r := range rules {
			if len(r.Verbs) == 1 && r.Verbs[0] == "*" {
				return true
			}
		}
	}
	return false
}

// H_C16_Maps: 2 markers with 2 resources each and shared group and verb: every iteration order of every map of up to 2 entries.
func H_C16_Maps() {
	ms := []marker{
		{groups: list("g", 1), resources: list("m0.r", 1), verbs: list("v", 1)},
		{groups: list("h", 1), resources: list("m1.r", 1), verbs: list("w", 1)},
	}
	a := generate(ms)
	sym.PermuteMaps(2)
	same(a, generate(ms))
}
