// Package dcgenh checks the deepcopy generator on packages made up here: which types it accepts (C19), and whether what it generates
// compiles, whatever the packages are called that it has to import (C25).
package dcgenh

import (
	"fmt"
	"go/types"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

var reg *markers.Registry

func Setup() {
	reg = &markers.Registry{}
	if err := (deepcopy.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
}

const root = "x.org/root"

// generate runs the generator on the root package.
func generate(pkgs []*vload.Pkg) (*loader.Package, []*yml.File, error) {
	p := vload.MustLoad(pkgs, root)
	rec := &yml.Recorder{}
	ctx := &genall.GenerationContext{
		Collector:  &markers.Collector{Registry: reg},
		Checker:    &loader.TypeChecker{NodeFilters: []loader.NodeFilter{(deepcopy.Generator{}).CheckFilter()}},
		Roots:      []*loader.Package{p},
		InputRule:  genall.InputFromFileSystem,
		OutputRule: rec,
	}
	err := deepcopy.Generator{Year: "2026"}.Generate(ctx)
	return p, rec.Files, err
}

func rootPkg(src string, imports ...string) *vload.Pkg {
	return vload.One(root, "root", "// +kubebuilder:object:generate=true\npackage root\n\n"+src, imports...)
}

type importer func(path string) (*types.Package, error)

func (i importer) Import(path string) (*types.Package, error) { return i(path) }

// compiles generates and asserts that the packages compile afterwards.
func compiles(pkgs []*vload.Pkg) string {
	p, out, err := generate(pkgs)
	for _, e := range p.Errors {
		sym.Debug("rejected", e.Error())
	}
	sym.Assert(err == nil && len(p.Errors) == 0, "supported types are rejected")
	sym.Assert(len(out) == 1 && out[0].Name == "zz_generated.deepcopy.go" && out[0].Pkg == p && out[0].Closed == 1, "one file is generated")
	if len(out) != 1 {
		return ""
	}
	text := string(out[0].Data)
	sym.Debug("generated", text)
	for _, q := range pkgs {
		if q.Path == root {
			q.Files = append(q.Files, vload.File{Name: "zz_generated.deepcopy.go", Src: text})
			for _, im := range []string{"k8s.io/apimachinery/pkg/runtime"} {
				if strings.Contains(text, `"`+im+`"`) {
					q.Imports = append(q.Imports, im)
				}
			}
		}
	}
	now := vload.MustLoad(pkgs, root)
	for _, im := range now.Imports() {
		im.NeedTypesInfo()
	}
	now.NeedTypesInfo()
	for _, e := range now.Errors {
		sym.Debug("error", e.Error())
	}
	sym.Assert(len(now.Errors) == 0, "the generated code does not compile")
	// the loader leaves out the bodies of functions
	conf := types.Config{Importer: importer(func(path string) (*types.Package, error) {
		if im := now.Imports()[path]; im != nil {
			return im.Types, nil
		}
		return nil, fmt.Errorf("no package %s", path)
	})}
	_, err = conf.Check(root, now.Fset, now.Syntax, nil)
	sym.Assert(err == nil, "the generated code does not compile")
	sym.Reach("generated")
	return text
}

var object = &vload.Pkg{Path: "k8s.io/apimachinery/pkg/runtime", Name: "runtime", Files: []vload.File{{Name: "r.go", Src: "package runtime\ntype Object interface{ DeepCopyObject() Object }\n"}}}

// other is a package whose types need to be named in generated code.
func other(path, dir, name string) *vload.Pkg {
	p := vload.One(path, name, "package "+name+"\n\ntype T string\ntype U struct{ A T }\ntype L []T\ntype M map[T]U\n")
	p.Dir = dir
	return p
}

// H_C25_paths: types of two packages, with the last element of either path any text of 1 or 2 (thorough: 3) of the characters a-z 0-9 - . _ ~,
// and the name of the package p or q, are named in the generated code; the package that is generated for declares something with
// any one-letter name as well.
func H_C25_paths() {
	const alphabet = "abcdefghijklmnopqrstuvwxyz0123456789-._~"
	n := 2 + sym.Tier()
	a, b := "x.org/a/"+sym.StringOf("a", 1, n, alphabet), "x.org/b/"+sym.StringOf("b", 1, n, alphabet)
	compiles([]*vload.Pkg{
		other(a, "a", "p"), other(b, "b", "q"),
		rootPkg(fmt.Sprintf("import (\n\tp %q\n\tq %q\n)\n\ntype R struct {\n\tA []p.T\n\tB map[string]q.T\n}\n", a, b), a, b),
	})
}

var words = []string{
	"go", "type", "func", "range", "init", "_", "-", "1", "1a", "a.b", // no names for imports
	"make", "len", "copy", "new", "nil", "string", "int", "bool", "T1", "any", // predeclared
	"in", "out", "key", "val", "i", "x", "c", "clone", "inVal", "outVal", // names in generated code
	"root", "runtime", "R", "p", "q", "v1", "ax", "aa",
}

// H_C25_words: the same for last elements of the paths from a list of words that mean something in Go or in generated code, with types of
// both packages in many places, for an object, in a package that declares something of that name or not, and where the other package has
// the same name, is one directory further up or further down, or differs only in letters that no name can have.
func H_C25_words() {
	w := words[sym.Choose("word", len(words))]
	a := "x.org/a/" + w
	b := []string{"x.org/b/" + w, "x.org/" + w, w, "x.org/b/a" + w, "x.org/" + w + "/a/" + w + "b", "x.org/1/" + w, "x.org/a/" + w + "/v1", "x.org/_/" + w + "x"}[sym.Choose("other", 8)]
	sym.Assume(b != root)
	pkgs := []*vload.Pkg{
		object, other(a, "a", "p"), other(b, "b", "q"),
		rootPkg(fmt.Sprintf("import (\n\tp %q\n\tq %q\n)\n\n", a, b)+`
// +kubebuilder:object:root=true
type R struct {
	A []p.T
	B map[string]q.T
	C *p.T
	D map[string]*[]p.T
	E [][]map[bool]q.T
	F map[int][]q.L
	G p.L
	H map[q.T]*p.U
	I *q.M
	J map[string]*Manual
	K *string
	L []int
}

// +kubebuilder:object:root=true
type S []p.L

type Manual struct{ P *int }

func (m Manual) DeepCopy() Manual { return m }

type Half struct{ A *q.M }

func (h *Half) DeepCopy() *Half { return h }
`, a, b)}
	switch w {
	case "go", "type", "func", "range", "init", "_", "-", "1", "1a", "a.b", "R", "p", "q": // not for a variable
	case "make", "len", "copy", "new", "nil", "string", "int", "bool": // generated code cannot do without
	default:
		if sym.Bool("declared") {
			f := vload.File{Name: "vars.go", Src: "package root\n\nvar " + w + " = 1\n"}
			if sym.Bool("as type") {
				f.Src = "package root\n\ntype " + w + " bool\n"
			}
			pkgs[3].Files = append(pkgs[3].Files, f)
		}
	}
	compiles(pkgs)
}
