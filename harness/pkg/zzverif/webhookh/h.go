// Package webhookh checks the webhook generator (C17, C18).
package webhookh

import (
	"fmt"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

// hook is a webhook marker: empty strings and nil lists are left out.
type hook struct {
	mutating                                   string
	name                                       string
	groups, versions, resources, verbs, review []string
	path, url, service, namespace, port        string
	failure, match, side, timeout, reinvoke    string
	target                                     []string
}

// plainHook is a valid marker.
func plainHook(name string, mutating bool) hook {
	return hook{mutating: strconv.FormatBool(mutating), name: name, groups: []string{"g.x"}, versions: []string{"v1"}, resources: []string{"foos"},
		verbs: []string{"create"}, review: []string{"v1"}, path: "/p", failure: "fail", side: "None"}
}

// args are the arguments of the marker as written.
func (h hook) args() []string {
	var out []string
	add := func(k, v string) {
		if v != "" {
			out = append(out, k+"="+v)
		}
	}
	quoted := func(k, v string) {
		if v != "" {
			out = append(out, k+"=`"+v+"`")
		}
	}
	add("mutating", h.mutating)
	add("name", h.name)
	add("groups", strings.Join(h.groups, ";"))
	add("versions", strings.Join(h.versions, ";"))
	add("resources", strings.Join(h.resources, ";"))
	add("verbs", strings.Join(h.verbs, ";"))
	add("admissionReviewVersions", strings.Join(h.review, ";"))
	quoted("path", h.path)
	quoted("url", h.url)
	add("serviceName", h.service)
	add("serviceNamespace", h.namespace)
	add("servicePort", h.port)
	add("failurePolicy", h.failure)
	add("matchPolicy", h.match)
	add("sideEffects", h.side)
	add("timeoutSeconds", h.timeout)
	add("reinvocationPolicy", h.reinvoke)
	add("webhookVersions", strings.Join(h.target, ";"))
	return out
}

func (h hook) text() string { return "//+kubebuilder:webhook:" + strings.Join(h.args(), ",") }

func fold(s string, words ...string) (string, bool) {
	for _, w := range words {
		if len(w) == len(s) && strings.ToLower(w) == strings.ToLower(s) {
			return w, true
		}
	}
	return s, false
}

func list(xs []string) []any {
	var out []any
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

// want is the webhook that is due, as read from the manifest.
func (h hook) want() map[string]any {
	m := map[string]any{"name": h.name, "admissionReviewVersions": list(h.review)}
	if h.path != "" {
		s := map[string]any{"name": h.service, "namespace": h.namespace, "path": h.path}
		if h.service == "" {
			s["name"] = "webhook-service"
		}
		if h.namespace == "" {
			s["namespace"] = "system"
		}
		if h.port != "" {
			n, _ := strconv.ParseInt(h.port, 10, 64)
			s["port"] = n
		}
		m["clientConfig"] = map[string]any{"service": s}
	} else {
		m["clientConfig"] = map[string]any{"url": h.url}
	}
	var groups, ops []any
	for _, g := range h.groups {
		if g == "core" {
			g = ""
		}
		if g == `""` || g == `"*"` {
			g = g[1 : len(g)-1]
		}
		groups = append(groups, g)
	}
	for _, v := range h.verbs {
		if v == `"*"` {
			v = "*"
		}
		op, _ := fold(v, "CREATE", "UPDATE", "DELETE", "CONNECT", "*")
		ops = append(ops, op)
	}
	m["rules"] = []any{map[string]any{"apiGroups": groups, "apiVersions": list(h.versions), "resources": list(h.resources), "operations": ops}}
	m["failurePolicy"], _ = fold(h.failure, "Ignore", "Fail")
	if h.match != "" {
		m["matchPolicy"], _ = fold(h.match, "Exact", "Equivalent")
	}
	m["sideEffects"], _ = fold(h.side, "None", "NoneOnDryRun")
	if h.timeout != "" && h.timeout != "0" {
		m["timeoutSeconds"], _ = strconv.ParseInt(h.timeout, 10, 64)
	}
	if h.reinvoke != "" && h.mutating == "true" {
		m["reinvocationPolicy"], _ = fold(h.reinvoke, "Never", "IfNeeded")
	}
	return m
}

// valid tells whether the marker is to be accepted.
func (h hook) valid() bool {
	ok := (h.path == "") != (h.url == "") && len(h.review) > 0 && h.mutating != "" && h.failure != "" &&
		h.name != "" && len(h.groups) > 0 && len(h.versions) > 0 && len(h.resources) > 0 && len(h.verbs) > 0
	if _, side := fold(h.side, "None", "NoneOnDryRun"); !side {
		ok = false
	}
	if _, match := fold(h.match, "", "Exact", "Equivalent"); !match {
		ok = false
	}
	if _, re := fold(h.reinvoke, "", "Never", "IfNeeded"); !re && h.mutating == "true" {
		ok = false
	}
	for _, t := range h.target {
		if t != "v1" {
			ok = false
		}
	}
	if h.timeout != "" {
		n, err := strconv.ParseInt(h.timeout, 10, 64)
		if err != nil || n < 0 || n > 30 {
			ok = false
		}
	}
	return ok
}

// config is a webhookconfiguration marker.
type config struct {
	mutating bool
	name     string
}

func (c config) text() string {
	t := "//+kubebuilder:webhookconfiguration:mutating=" + strconv.FormatBool(c.mutating)
	if c.name != "" {
		t += ",name=" + c.name
	}
	return t
}

var (
	pkgs []*loader.Package
	reg  *markers.Registry
)

const slots = 5

func Setup() {
	var ps []*vload.Pkg
	var roots []string
	for p := 0; p < 2; p++ {
		var src strings.Builder
		src.WriteString("package p\n\n")
		for i := 0; i < slots; i++ {
			fmt.Fprintf(&src, "//SLOT%d\n", i)
		}
		src.WriteString("\ntype T struct{}\n")
		roots = append(roots, fmt.Sprint("x.org/p", p))
		ps = append(ps, vload.One(roots[p], "p", src.String()))
	}
	var err error
	if pkgs, err = vload.Load(ps, roots...); err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		p.NeedSyntax()
	}
	reg = &markers.Registry{}
	if err := (webhook.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
}

// place puts marker texts into a package.
func place(p *loader.Package, texts []string) {
	repl := map[string]string{}
	for i := 0; i < slots; i++ {
		t := "// nothing"
		if i < len(texts) {
			t = texts[i]
		}
		repl[fmt.Sprint("//SLOT", i)] = t
	}
	vload.Subst(p, repl)
}

// generate runs the generator over packages holding the given markers and returns what was written and whether anything was reported.
func generate(texts ...[]string) (docs []any, bad bool) {
	rec := &yml.Recorder{}
	ctx := &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, OutputRule: rec}
	for i, t := range texts {
		place(pkgs[i], t)
		pkgs[i].Errors = nil
		ctx.Roots = append(ctx.Roots, pkgs[i])
	}
	err := webhook.Generator{}.Generate(ctx)
	bad = err != nil
	for _, p := range ctx.Roots {
		bad = bad || len(p.Errors) > 0
	}
	if err != nil {
		sym.Assert(len(rec.Files) == 0, "nothing is written when a marker is rejected")
	}
	sym.Assert(len(rec.Files) <= 1, "there is one manifest")
	for _, f := range rec.Files {
		sym.Assert(f.Name == "manifests.yaml" && f.Pkg == nil && f.Closed == 1, "the manifest is written to manifests.yaml and closed")
		var ok bool
		docs, ok = yml.Docs(f.Data)
		sym.Assert(ok, "the manifest is readable YAML")
	}
	return docs, bad
}

// wantDoc is a whole configuration.
func wantDoc(mutating bool, name string, hooks []any) map[string]any {
	kind := "ValidatingWebhookConfiguration"
	if mutating {
		kind = "MutatingWebhookConfiguration"
	}
	if name == "" {
		name = "validating-webhook-configuration"
		if mutating {
			name = "mutating-webhook-configuration"
		}
	}
	return map[string]any{"apiVersion": "admissionregistration.k8s.io/v1", "kind": kind, "metadata": map[string]any{"name": name}, "webhooks": hooks}
}

// expect is what is due for the markers of the packages, given that all are valid.
func expect(names [2]string, hooks ...[]hook) []any {
	var docs []any
	for _, mutating := range []bool{true, false} {
		var out []any
		for _, hs := range hooks {
			var sorted []hook
			for _, h := range hs {
				if h.mutating != strconv.FormatBool(mutating) {
					continue
				}
				at := len(sorted)
				for at > 0 && h.name < sorted[at-1].name {
					at--
				}
				sorted = append(sorted, hook{})
				copy(sorted[at+1:], sorted[at:])
				sorted[at] = h
			}
			for _, h := range sorted {
				out = append(out, h.want())
			}
		}
		if len(out) > 0 {
			n := names[1]
			if mutating {
				n = names[0]
			}
			docs = append(docs, wantDoc(mutating, n, out))
		}
	}
	return docs
}

func texts(hs []hook) []string {
	var out []string
	for _, h := range hs {
		out = append(out, h.text())
	}
	return out
}

func check(hs []hook) {
	ok := true
	for _, h := range hs {
		ok = h.valid() && ok
	}
	docs, bad := generate(texts(hs))
	sym.Assert(bad == !ok, "exactly an invalid marker is rejected")
	if bad {
		sym.Reach("rejected")
		return
	}
	want := expect([2]string{}, hs)
	sym.Assert(len(docs) == len(want), "there is one configuration for each kind of webhook")
	for i := range docs {
		sym.Assert(sym.DeepEqual(docs[i], want[i]), "the configurations hold exactly what the markers say")
	}
	sym.Reach("written")
}
