// Package ach checks the applyconfiguration generator (C32).
package ach

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	_ "sigs.k8s.io/controller-tools/pkg/zzverif/gengom"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

var reg *markers.Registry

func Setup() {
	reg = &markers.Registry{}
	if err := (applyconfiguration.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
}

const metaPath = "k8s.io/apimachinery/pkg/apis/meta/v1"

func meta() *vload.Pkg {
	p := vload.One(metaPath, "v1", "package v1\n\ntype TypeMeta struct {\n\tKind string `json:\"kind\"`\n}\n\ntype ObjectMeta struct {\n\tName string `json:\"name\"`\n}\n")
	p.Dir = "meta"
	return p
}

// api is a package of the objects T and U; both have a part S.
func api(dir, markers, t, u string) *vload.Pkg {
	p := vload.One("x.org/"+dir, filepath.Base(dir), fmt.Sprintf(`%s
package %s

import metav1 %q

// T is an object.
%s
type T struct {
	metav1.TypeMeta   `+"`json:\",inline\"`"+`
	metav1.ObjectMeta `+"`json:\"metadata\"`"+`
	A S `+"`json:\"a\"`"+`
	B P `+"`json:\"b\"`"+`
}

%s
// U is an object.
type U struct {
	metav1.TypeMeta   `+"`json:\",inline\"`"+`
	metav1.ObjectMeta `+"`json:\"metadata\"`"+`
	A S `+"`json:\"a\"`"+`
}

type S struct {
	X string `+"`json:\"x\"`"+`
}

type P struct {
	X *int `+"`json:\"x\"`"+`
}

type Alone struct {
	X string `+"`json:\"x\"`"+`
}
`, markers, filepath.Base(dir), metaPath, t, u), metaPath)
	p.Dir = "src/" + dir
	return p
}

// run runs the generator; the result are the files that are there afterwards, and were not before.
func run(top string, g applyconfiguration.Generator, pkgs []*vload.Pkg, paths ...string) (made map[string]string, roots []*loader.Package, err error) {
	vload.Put(top+"/tmp/x", "")
	vload.TempIn(top + "/tmp")
	vload.KeepTree = true
	roots, err = vload.LoadTree(top, append(pkgs, meta()), []string{"src", "meta"}, &packages.Config{Dir: top + "/src"}, paths...)
	if err != nil {
		panic(err)
	}
	before := vload.Files(top)
	rec := &yml.Recorder{}
	ctx := &genall.GenerationContext{
		Collector:  &markers.Collector{Registry: reg},
		Checker:    &loader.TypeChecker{NodeFilters: []loader.NodeFilter{g.CheckFilter()}},
		Roots:      roots,
		InputRule:  genall.InputFromFileSystem,
		OutputRule: rec,
	}
	err = g.Generate(ctx)
	if err != nil {
		sym.Debug("err", err.Error())
	}
	for _, e := range roots[0].Errors {
		sym.Debug("rooterr", e.Error())
	}
	made = map[string]string{}
	for k, v := range vload.Files(top) {
		if _, there := before[k]; !there && !strings.HasSuffix(k, "/") {
			made[k] = v
		}
		sym.Debug("file", k)
	}
	for k, v := range before {
		sym.Assert(v == vload.Files(top)[k], "a file that was there is changed")
	}
	return made, roots, err
}

var enable = []string{"", "// +kubebuilder:ac:generate=true", "// +kubebuilder:ac:generate=false"}
var resource = []string{"", "// +kubebuilder:resource:path=xs\n"}

func typeMarkers(name string) (text string, explicit, res int) {
	explicit, res = sym.Choose(name+".generate", 3), sym.Choose(name+".resource", 2)
	return resource[res] + enable[explicit], explicit, res
}

func enabled(pkg bool, explicit, res int) bool {
	return explicit == 1 || explicit == 0 && pkg && res == 1
}

// H_C32_types: for a package that is enabled, disabled or neither, with two types that each have or have not +kubebuilder:resource, and
// enable, disable or do neither with apply configurations: files are generated for exactly the types asked for, and for what they refer to.
func H_C32_types() {
	top := vload.Scratch()
	pm := sym.Choose("package", 3)
	tm, te, tr := typeMarkers("T")
	um, ue, ur := typeMarkers("U")
	made, roots, err := run(top, applyconfiguration.Generator{}, []*vload.Pkg{api("api/v1", enable[pm], tm, um)}, "x.org/api/v1")
	sym.Assert(err == nil && len(roots[0].Errors) == 0, "the generator fails")
	want := map[string]bool{}
	out := "src/api/v1/applyconfiguration/"
	t, u := enabled(pm == 1, te, tr), enabled(pm == 1, ue, ur)
	if pm == 1 || t || u {
		want[out+"utils.go"] = true
		want[out+"internal/internal.go"] = true
	}
	if t {
		want[out+"api/v1/t.go"] = true
		want[out+"api/v1/p.go"] = true
	}
	if u {
		want[out+"api/v1/u.go"] = true
	}
	if t || u {
		want[out+"api/v1/s.go"] = true
	}
	same(made, want)
	sym.Reach("made")
}

func same(made map[string]string, want map[string]bool) {
	for k := range made {
		sym.Assert(want[k], "a file is generated that nothing asks for: "+k)
	}
	for k := range want {
		_, ok := made[k]
		sym.Assert(ok, "a file is not generated: "+k)
	}
}

// H_C32_place: for every text of 1 to 4 (thorough: 5) of the characters a, dot and slash that is a path of packages in +kubebuilder:ac:output:package, or without
// that marker, with a header or without one: the files are in that directory, as seen from the package's, have that header, and the import
// path of the directory; no temporary files are left.
func H_C32_place() {
	top := vload.Scratch()
	out, marker := "applyconfiguration", ""
	if sym.Bool("given") {
		out = sym.Concretize(sym.StringOf("out", 1, 4+sym.Tier(), "a./"))
		for _, part := range strings.Split(out, "/") {
			sym.Assume(part == "." || part == ".." || !strings.Contains(part, ".")) // names packages can have
		}
		marker = fmt.Sprintf("\n// +kubebuilder:ac:output:package=%q", out)
	}
	g, head := applyconfiguration.Generator{}, ""
	if sym.Bool("header") {
		g.HeaderFile = top + "/src/header.txt"
		head = "// A header.\n"
		vload.Put(g.HeaderFile, head)
	}
	made, roots, err := run(top, g, []*vload.Pkg{api("api/g/v1", enable[1]+marker, enable[1], "")}, "x.org/api/g/v1")
	sym.Assert(err == nil && len(roots[0].Errors) == 0, "the generator fails")
	dir := filepath.Join("src/api/g/v1", out)
	same(made, map[string]bool{
		dir + "/utils.go": true, dir + "/internal/internal.go": true,
		dir + "/g/v1/t.go": true, dir + "/g/v1/s.go": true, dir + "/g/v1/p.go": true,
	})
	for k, v := range made {
		sym.Assert(strings.HasPrefix(v, head), "a generated file has no header: "+k)
		sym.Assert(head == "" || strings.Count(v, "A header.") == 1, "a generated file has two headers: "+k)
		sym.Assert(strings.HasPrefix(strings.TrimLeft(v[len(head):], "\n"), "// Code generated by "), "a generated file does not say so: "+k)
	}
	path := filepath.Join("x.org/api/g/v1", out)
	sym.Assert(strings.Contains(made[dir+"/utils.go"], fmt.Sprintf("%q", path+"/internal")), "wrong import path")
	sym.Assert(strings.Contains(made[dir+"/utils.go"], "\npackage "+filepath.Base(path)+"\n"), "wrong package name")
	sym.Reach("made")
}

// H_C32_packages: for two packages in either order, each of which is enabled or not, has types that are enabled or not, has its own output package
// or the default one, or has a marker that cannot be parsed (of the package or of a type): what is generated for one does not depend on
// the other, and what cannot be parsed is reported.
func H_C32_packages() {
	top := vload.Scratch()
	want := map[string]bool{}
	bad := 0
	pkg := func(dir string) *vload.Pkg {
		var p, t string
		out := "src/" + dir + "/applyconfiguration"
		e, et := sym.Choose(dir+".package", 4), sym.Choose(dir+".type", 4)
		p = append(enable, "// +kubebuilder:ac:generate=maybe")[e]
		t = append(enable, "// +kubebuilder:ac:generate=maybe")[et]
		if sym.Bool(dir + ".output") {
			p += "\n// +kubebuilder:ac:output:package=gen"
			out = "src/" + dir + "/gen"
		}
		switch {
		case e == 3 || et == 3:
			bad++
		case et == 1 || e == 1:
			want[out+"/utils.go"] = true
			want[out+"/internal/internal.go"] = true
			if et == 1 {
				for _, n := range []string{"t", "s", "p"} {
					want[out+"/"+dir+"/"+n+".go"] = true
				}
			}
		}
		return api(dir, p, t, "")
	}
	pkgs := []*vload.Pkg{pkg("api/v1"), pkg("other/v2")}
	paths := []string{pkgs[0].Path, pkgs[1].Path}
	if sym.Bool("swap") {
		paths[0], paths[1] = paths[1], paths[0]
	}
	made, roots, err := run(top, applyconfiguration.Generator{}, pkgs, paths...)
	reported := err != nil
	for _, r := range roots {
		reported = reported || len(r.Errors) > 0
	}
	sym.Assert(reported == (bad > 0), "errors are not reported, or without a reason")
	same(made, want)
	sym.Reach("made")
}
