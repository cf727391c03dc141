// Package outh checks where artifacts end up and what is in their files (C27).
package outh

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

const (
	meta    = "k8s.io/apimachinery/pkg/apis/meta/v1"
	srcMeta = `package v1

type TypeMeta struct {
	Kind string ` + "`json:\"kind,omitempty\"`" + `
}
// ObjectMeta has the name.
type ObjectMeta struct {
	Name string ` + "`json:\"name,omitempty\"`" + `
}
type Status struct{}
`
	src1 = `// +GROUP1
package v1

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

// +PLURAL1
// +SKIP1

// A is a kind.
type A struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	// metadata is described here.
	metav1.ObjectMeta ` + "`json:\"metadata,omitempty\"`" + `
	Status string ` + "`json:\"status\"`" + `
}

// +PLURAL2

// Bb is a kind.
type Bb struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	Y map[string]int ` + "`json:\"y\"`" + `
}

// NoKind has no TypeMeta.
type NoKind struct {
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	T metav1.TypeMeta ` + "`json:\"t\"`" + `
}
`
	src2 = `// +GROUP2
// +versionName=v2
package p2

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

// +kubebuilder:storageversion

// A is a kind.
type A struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	X string ` + "`json:\"x\"`" + `
}
`
)

var reg *markers.Registry

func Setup() {
	reg = &markers.Registry{}
	for _, g := range []genall.Generator{crd.Generator{}, rbac.Generator{}, webhook.Generator{}} {
		if err := g.RegisterMarkers(reg); err != nil {
			panic(err)
		}
	}
}

func ctx(out genall.OutputRule, roots ...*loader.Package) *genall.GenerationContext {
	return &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{(crd.Generator{}).CheckFilter()}},
		Roots: roots, InputRule: genall.InputFromFileSystem, OutputRule: out}
}

// header is an arbitrary header file, or none, or one that is missing; want is what it should look like at the top of a file.
func header(comment string) (file, year, want string, missing bool) {
	file = filepath.Join(vload.Scratch(), "h.txt")
	year = []string{"", "2026", " YEAR"}[sym.Choose("year", 3)]
	text := comment + " (c)" + []string{" YEAR", "YEAR", " YEAR YEARS, YEAR"}[sym.Choose("where", 3)] + sym.StringOf("header", 0, 2+2*sym.Tier(), "aR -\n") + "\n"
	switch sym.Choose("headerFile", 3) {
	case 0:
		return "", year, "", false
	case 1:
		return file, year, "", true
	}
	vload.Put(file, text)
	return file, year, strings.ReplaceAll(text, " YEAR", " "+year), false
}

// docs cuts the header off a file and reads its documents.
func docs(f *yml.File, head string) []map[string]any {
	sym.Assert(f.Closed == 1, "a file is closed once")
	sym.Assert(strings.HasPrefix(string(f.Data), head), "a file starts with the header, with the year filled in")
	if !strings.HasPrefix(string(f.Data), head) {
		return nil
	}
	list, ok := yml.Docs(f.Data[len(head):])
	sym.Assert(ok, "a file holds YAML documents after its header")
	var out []map[string]any
	for _, d := range list {
		m, ok := d.(map[string]any)
		sym.Assert(ok, "a document is an object")
		out = append(out, m)
	}
	return out
}

func at(x any, path ...string) any {
	for _, p := range path {
		m, ok := x.(map[string]any)
		if !ok {
			return nil
		}
		x = m[p]
	}
	return x
}

// H_C27_crds: two kinds in one package and one of them also in another, with any groups of 1 to 2 (thorough: 3) characters and plural names of
// 1 character, or default plural names, one kind perhaps left out, and CRDs in one or two CRD versions (or one that does not exist), with the
// option about unknown fields or without; without a header.
func H_C27_crds() {
	crds(true, "", "", "")
}

// H_C27_header: the headers of CRDs.
func H_C27_header() {
	file, year, want, missing := header("#")
	if missing {
		out := &yml.Recorder{}
		roots, err := vload.Load([]*vload.Pkg{vload.One("x.org/v1", "v1", src1, meta), vload.One(meta, "v1", srcMeta)}, "x.org/v1")
		sym.Assert(err == nil, "loads")
		err = crd.Generator{HeaderFile: file}.Generate(ctx(out, roots...))
		sym.Assert(err != nil && len(out.Files) == 0, "a header that cannot be read is not reported")
		return
	}
	crds(false, file, year, want)
}

func crds(vary bool, file, year, head string) {
	roots, err := vload.Load([]*vload.Pkg{vload.One("x.org/v1", "v1", src1, meta), vload.One("x.org/p2", "p2", src2, meta), vload.One(meta, "v1", srcMeta)}, "x.org/v1", "x.org/p2")
	sym.Assert(err == nil, "loads")
	g1, g2 := "g", "h"
	plurals := []string{"", ""}
	skip, named := false, false
	unknown := 0
	g := crd.Generator{HeaderFile: file, Year: year}
	versions := []string{"v1"}
	if vary {
		g1 = sym.StringOf("group", 1, 2+sym.Tier(), "gh.-_")
		sym.Assume(g1[0] != '_' && g1[0] != '-' && g1[0] != '.')
		g2 = g1
		if sym.Choose("groups", 2) == 1 {
			g2 = sym.StringOf("group2", 1, 1, "gh")
		}
		if named = sym.Choose("named", 2) == 1; named {
			plurals[0], plurals[1] = sym.StringOf("plural", 1, 1, "xyz"), sym.StringOf("plural2", 1, 1, "xyz")
			sym.Assume(plurals[0] != plurals[1])
		}
		skip = sym.Choose("skip", 2) == 1
		switch sym.Choose("versions", 4) {
		case 1:
			g.CRDVersions = versions
		case 2:
			versions = []string{"v1", "v1"}
			g.CRDVersions = versions
		case 3:
			g.CRDVersions = []string{"v1", "v1beta1"}
			versions = nil
		}
		if unknown = sym.Choose("unknown", 3); unknown > 0 {
			keep := unknown == 2
			g.DeprecatedV1beta1CompatibilityPreserveUnknownFields = &keep
		}
	}
	repl := map[string]string{"// +GROUP1": "// +groupName=" + g1, "// +GROUP2": "// +groupName=" + g2}
	if named {
		repl["// +PLURAL1"], repl["// +PLURAL2"] = "// +kubebuilder:resource:path="+plurals[0], "// +kubebuilder:resource:path="+plurals[1]
	} else {
		plurals = []string{"as", "bbs"}
	}
	if skip {
		repl["// +SKIP1"] = "// +kubebuilder:skipversion"
	}
	for _, r := range roots {
		vload.Subst(r, repl)
	}
	out := &yml.Recorder{}
	err = g.Generate(ctx(out, roots...))
	if versions == nil {
		sym.Assert(err != nil, "an unknown CRD version is not reported")
		return
	}
	sym.Assert(err == nil, "generates")
	for _, r := range roots {
		for _, e := range r.Errors {
			sym.Debug("error", e.Error())
		}
		sym.Assert(len(r.Errors) == 0, "no errors")
	}

	// what is due
	type due struct {
		group, plural, kind string
		versions            []any
	}
	var want []due
	add := func(d due) { want = append(want, d) }
	a1 := due{g1, plurals[0], "A", nil}
	if !skip {
		a1.versions = append(a1.versions, "v1")
	}
	a2 := due{g2, "as", "A", []any{"v2"}}
	if g1 == g2 {
		a1.versions = append(a1.versions, "v2")
		a2.versions = nil
	}
	for _, d := range []due{a1, a2, {g1, plurals[1], "Bb", []any{"v1"}}} {
		if len(d.versions) > 0 {
			add(d)
		}
	}
	sym.Assert(len(out.Files) == len(want)*len(versions), "one file per kind and CRD version")
	for _, d := range want {
		for i, v := range versions {
			name := d.group + "_" + d.plural + ".yaml"
			if i > 0 {
				name = d.group + "_" + d.plural + "." + v + ".yaml"
			}
			var f *yml.File
			for _, o := range out.Files {
				if o.Name == name {
					sym.Assert(f == nil, "a file is written twice")
					f = o
				}
			}
			sym.Assert(f != nil, "the file of a kind is named by its group and plural")
			if f == nil {
				return
			}
			sym.Assert(f.Pkg == nil, "CRDs are config, not code")
			ds := docs(f, head)
			sym.Assert(len(ds) == 1, "a file holds one CRD")
			if len(ds) != 1 {
				return
			}
			doc := ds[0]
			sym.Assert(sym.DeepEqual(doc["apiVersion"], any("apiextensions.k8s.io/v1")) && sym.DeepEqual(doc["kind"], any("CustomResourceDefinition")), "it is a CRD")
			_, status := doc["status"]
			sym.Assert(len(doc) == 4 && !status, "a CRD has no status")
			md, _ := doc["metadata"].(map[string]any)
			_, created := md["creationTimestamp"]
			sym.Assert(sym.DeepEqual(md["name"], any(d.plural+"."+d.group)) && !created, "a CRD is named by plural and group and has no timestamp")
			_, tool := at(doc, "metadata", "annotations", "controller-gen.kubebuilder.io/version").(string)
			sym.Assert(tool, "a CRD says what generated it")
			sym.Assert(sym.DeepEqual(at(doc, "spec", "group"), any(d.group)) && sym.DeepEqual(at(doc, "spec", "names", "plural"), any(d.plural)) && sym.DeepEqual(at(doc, "spec", "names", "kind"), any(d.kind)), "names")
			keep, given := at(doc, "spec").(map[string]any)["preserveUnknownFields"]
			sym.Assert(given == (unknown > 0) && (!given || sym.DeepEqual(keep, any(unknown == 2))), "preserveUnknownFields is there exactly if asked for")
			vs, _ := at(doc, "spec", "versions").([]any)
			var names []any
			for _, v := range vs {
				names = append(names, at(v, "name"))
				sym.Assert(sym.DeepEqual(at(v, "schema", "openAPIV3Schema", "properties", "metadata"), any(map[string]any{"type": "object"})), "metadata of a kind is an object and nothing more")
				s := at(v, "schema", "openAPIV3Schema", "properties", "status", "type")
				sym.Assert(sym.DeepEqual(s, any("string")) == (d.kind == "A" && sym.DeepEqual(names[len(names)-1], any("v1"))), "fields named status stay")
			}
			sym.Assert(sym.DeepEqual(names, d.versions), "the versions of the kind")
		}
	}
	sym.Reach("crds")
}

// H_C27_config: the headers and file names of roles and webhook configurations; nothing is written where nothing is declared.
func H_C27_config() {
	file, year, head, missing := header("#")
	src := "package v1\n"
	hook := sym.Choose("webhook", 2) == 1
	some := sym.Choose("some", 2) == 1
	name := "role.yaml"
	var g genall.Generator
	if hook {
		name = "manifests.yaml"
		g = webhook.Generator{HeaderFile: file, Year: year}
		if some {
			src += "\n// +kubebuilder:webhook:path=/p,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.g.x,sideEffects=None,admissionReviewVersions=v1\n" +
				"// +kubebuilder:webhook:path=/p,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.g.x,sideEffects=None,admissionReviewVersions=v1\n"
		}
	} else {
		r := rbac.Generator{RoleName: "role", HeaderFile: file, Year: year}
		if sym.Choose("own name", 2) == 1 {
			name = sym.StringOf("name", 1, 2, "ab./")
			r.FileName = name
		}
		g = r
		if some {
			src += "\n// +kubebuilder:rbac:groups=g,resources=r,verbs=get\n// +kubebuilder:rbac:groups=g,resources=r,verbs=get,namespace=n\n"
		}
	}
	out := &yml.Recorder{}
	root := vload.MustLoad([]*vload.Pkg{vload.One("x.org/v1", "v1", src)}, "x.org/v1")
	err := g.Generate(ctx(out, root))
	if !some {
		sym.Assert(len(out.Files) == 0, "nothing is written for nothing")
		sym.Assert(err == nil || missing, "nothing declared is no error")
		sym.Reach("nothing")
		return
	}
	sym.Assert((err != nil) == missing, "exactly a header that cannot be read is an error")
	if missing {
		sym.Assert(len(out.Files) == 0, "a header that cannot be read is not reported before writing")
		sym.Reach("missing")
		return
	}
	sym.Assert(len(out.Files) == 1 && out.Files[0].Name == name && out.Files[0].Pkg == nil, "the file has the right name")
	ds := docs(out.Files[0], head)
	sym.Assert(len(ds) == 2, "one document for each object")
	for i, d := range ds {
		kinds := []string{"ClusterRole", "Role"}
		if hook {
			kinds = []string{"MutatingWebhookConfiguration", "ValidatingWebhookConfiguration"}
		}
		sym.Assert(sym.DeepEqual(d["kind"], any(kinds[i])), "the objects are in order")
		md, _ := d["metadata"].(map[string]any)
		_, created := md["creationTimestamp"]
		sym.Assert(len(md) > 0 && !created, "objects have names and no timestamps")
	}
	sym.Reach("config")
}

// H_C27_rules: the two rules that write files, over a directory in which some of the files and directories are there already; two artifacts,
// each belonging to no package, one of two packages with sources in different directories, or one without sources, with names of 1 to 2
// (thorough: 3) characters in the directory itself or one below, each written in up to two pieces.
func H_C27_rules() {
	dir := vload.Scratch()
	want := map[string]string{}
	put := func(name, data string) {
		vload.Put(filepath.Join(dir, name), data)
		want[name] = data
		for d := filepath.Dir(name); d != "."; d = filepath.Dir(d) {
			want[d+"/"] = ""
		}
	}
	put("src/p/a.go", "package p\n")
	put("src/q/sub/b.go", "package q\n")
	put("src/q/sub/z", "older and longer than what is written")
	if sym.Choose("there", 2) == 1 {
		put("config/a", "older and longer than what is written")
		put("config/sub/x", "unrelated")
		put("code/ab", "older and longer than what is written")
	}
	pkgs := []*loader.Package{nil,
		{Package: &packages.Package{CompiledGoFiles: []string{filepath.Join(dir, "src/p/a.go"), filepath.Join(dir, "src/q/sub/b.go")}}},
		{Package: &packages.Package{CompiledGoFiles: []string{filepath.Join(dir, "src/q/sub/b.go")}}},
		{Package: &packages.Package{}},
	}
	homes := []string{"", "src/p", "src/q/sub", "?"}
	config := []string{"config", "config/deep/er", "code"}[sym.Choose("config", 3)]
	var rule genall.OutputRule
	kind := sym.Choose("rule", 3)
	switch kind {
	case 0:
		rule = genall.OutputToDirectory(filepath.Join(dir, config))
	case 1:
		rule = genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join(dir, config))}
	case 2:
		rule = genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join(dir, config)), Code: genall.OutputToDirectory(filepath.Join(dir, "code"))}
	}
	for i := 0; i < 2; i++ {
		id := fmt.Sprint("file", i)
		name := sym.StringOf(id, 1, 1+sym.Tier(), "abz")
		if sym.Choose(id+".sub", 2) == 1 {
			name = "sub/" + name
		}
		p := sym.Choose(id+".pkg", len(pkgs))
		to := config
		switch {
		case p == 0 || kind == 0:
		case kind == 2:
			to = "code"
		default:
			to = homes[p]
			if strings.HasPrefix(name, "sub/") {
				continue // generated code has no directories of its own
			}
		}
		w, err := rule.Open(pkgs[p], name)
		sym.Assert((err != nil) == (to == "?"), "exactly code without a place is an error")
		if err != nil {
			sym.Reach("nowhere")
			continue
		}
		data := ""
		pieces := sym.Choose(id+".pieces", 3)
		for j := 0; j < pieces; j++ {
			piece := fmt.Sprint(id, " piece ", j, "\n")
			data += piece
			n, err := w.Write([]byte(piece))
			sym.Assert(n == len(piece) && err == nil, "writes")
		}
		sym.Assert(w.Close() == nil, "closes")
		name = to + "/" + name
		want[name] = data
		for d := filepath.Dir(name); d != "."; d = filepath.Dir(d) {
			want[d+"/"] = ""
		}
		sym.Reach("written")
	}
	got := vload.Files(dir)
	sym.Assert(sym.DeepEqual(got, want), "an artifact is in its place, as a whole, and nothing else changes")
	sym.Reach("compared")
}
