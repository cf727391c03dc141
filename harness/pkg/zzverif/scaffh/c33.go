// Package scaffh checks the scaffolding of types (C33).
package scaffh

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"github.com/gobuffalo/flect"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/typescaffold"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

var reg *markers.Registry

func Setup() {
	reg = &markers.Registry{}
	if err := (deepcopy.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
	for _, name := range []string{"genclient", "genclient:nonNamespaced"} {
		if err := reg.Define(name, markers.DescribesType, struct{}{}); err != nil {
			panic(err)
		}
	}
}

const (
	root     = "x.org/api"
	metaPath = "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func pkgs(files ...vload.File) []*vload.Pkg {
	meta := vload.One(metaPath, "v1", `package v1

type TypeMeta struct{ Kind string }
type ObjectMeta struct{ Labels map[string]string }
type ListMeta struct{ Items *int64 }

func (in *ObjectMeta) DeepCopyInto(out *ObjectMeta) {}
func (in *ListMeta) DeepCopyInto(out *ListMeta) {}
`)
	meta.Dir = "meta"
	api := &vload.Pkg{Path: root, Name: "api", Files: files, Imports: []string{metaPath}}
	if len(files) > 1 {
		api.Imports = append(api.Imports, "k8s.io/apimachinery/pkg/runtime")
	}
	return []*vload.Pkg{meta, api,
		{Path: "k8s.io/apimachinery/pkg/runtime", Name: "runtime", Files: []vload.File{{Name: "r.go", Src: "package runtime\ntype Object interface{ DeepCopyObject() Object }\n"}}}}
}

type importer func(path string) (*types.Package, error)

func (i importer) Import(path string) (*types.Package, error) { return i(path) }

// compiled asserts that the files compile together.
func compiled(files ...vload.File) *loader.Package {
	p := vload.MustLoad(pkgs(files...), root)
	for _, im := range p.Imports() {
		im.NeedTypesInfo()
	}
	p.NeedTypesInfo()
	for _, e := range p.Errors {
		sym.Debug("error", e.Error())
	}
	conf := types.Config{Importer: importer(func(path string) (*types.Package, error) {
		if im := p.Imports()[path]; im != nil {
			return im.Types, nil
		}
		return nil, fmt.Errorf("no package %s", path)
	})}
	_, err := conf.Check(root, p.Fset, p.Syntax, nil)
	sym.Assert(len(p.Errors) == 0 && err == nil, "what is printed (and generated from it) is no valid Go")
	return p
}

// field describes a field as its JSON name, whether it is inline, and its type.
func field(s *types.Struct, name string) (jsonName string, typ string) {
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == name {
			tag := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			jsonName = tag[0]
			for _, o := range tag[1:] {
				if o == "inline" {
					jsonName += "inline"
				}
			}
			if f.Embedded() {
				jsonName += " embedded"
			}
			return jsonName, types.TypeString(f.Type(), func(q *types.Package) string {
				if q.Path() == root {
					return ""
				}
				return q.Path()
			})
		}
	}
	return "", ""
}

func within(p *loader.Package, typ string) []string {
	var lines []string
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			spec, isType := n.(*ast.TypeSpec)
			if !isType || spec.Name.Name != typ {
				return true
			}
			for _, g := range f.Comments {
				if g.Pos() > spec.Pos() && g.End() < spec.End() {
					for _, c := range g.List {
						lines = append(lines, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
					}
				}
			}
			return false
		})
	}
	return lines
}

// check looks at what is printed.
func check(o *typescaffold.ScaffoldOptions, resource string, generate bool) {
	kind := o.Resource.Kind
	var out bytes.Buffer
	err := o.Scaffold(&out)
	sym.Assert(err == nil, "valid options are rejected")
	src := "// +kubebuilder:object:generate=true\npackage api\n\nimport metav1 \"" + metaPath + "\"\n\n" + out.String()
	sym.Debug("source", src)
	p := compiled(vload.File{Name: "types.go", Src: src})
	names := p.Types.Scope().Names()
	sym.Assert(len(names) == 4, "what is declared is not the kind with its spec, status and list")
	for _, n := range []string{kind, kind + "Spec", kind + "Status", kind + "List"} {
		obj := p.Types.Scope().Lookup(n)
		sym.Assert(obj != nil, "the kind, its spec, status or list is not declared")
		s, isStruct := obj.Type().Underlying().(*types.Struct)
		sym.Assert(isStruct, "a type is no struct")
		want := map[string][2]string{}
		switch n {
		case kind:
			want = map[string][2]string{"TypeMeta": {"inline embedded", metaPath + ".TypeMeta"}, "ObjectMeta": {"metadata embedded", metaPath + ".ObjectMeta"}, "Spec": {"spec", kind + "Spec"}, "Status": {"status", kind + "Status"}}
		case kind + "List":
			want = map[string][2]string{"TypeMeta": {"inline embedded", metaPath + ".TypeMeta"}, "ListMeta": {"metadata embedded", metaPath + ".ListMeta"}, "Items": {"items", "[]" + kind}}
		}
		sym.Assert(s.NumFields() == len(want), "a type has fields it should not have, or lacks some")
		for f, w := range want {
			j, t := field(s, f)
			sym.Assert(j == w[0] && t == w[1], "a field is missing or has the wrong name or type: "+n+"."+f)
		}
		if n == kind+"Spec" || n == kind+"Status" {
			got := within(p, n)
			if o.AdditionalHelp != "" {
				help := strings.Split(o.AdditionalHelp, "\n")
				ok := len(got) >= len(help)
				for i := range help {
					ok = ok && got[len(got)-len(help)+i] == help[i]
				}
				sym.Assert(ok, "the additional help is not in the spec and the status")
			}
		}
	}
	// what the generators make of it
	col := &markers.Collector{Registry: reg}
	client := map[string]string{}
	docs := map[string]string{}
	err = markers.EachType(col, p, func(info *markers.TypeInfo) {
		for _, m := range []string{"genclient", "genclient:nonNamespaced"} {
			if info.Markers.Get(m) != nil {
				client[info.Name] += m + " "
			}
		}
		docs[info.Name] = info.Doc
	})
	sym.Assert(err == nil, "the markers are wrong")
	want := ""
	if o.GenerateClients {
		want = "genclient "
		if !o.Resource.Namespaced {
			want += "genclient:nonNamespaced "
		}
	}
	sym.Assert(client[kind] == want, "the kind is marked for other clients than asked for")
	sym.Assert(client[kind+"Spec"] == "" && client[kind+"Status"] == "" && !strings.Contains(client[kind+"List"]+" ", "genclient "), "clients are asked for another type than the kind")
	names0 := false
	for _, w := range strings.Fields(docs[kind]) {
		names0 = names0 || w == resource
	}
	sym.Assert(names0, "the documentation does not name the resource")
	for n, d := range docs {
		sym.Assert(strings.HasPrefix(d, n+" "), "a type is not documented: "+n)
	}
	sym.Reach("printed")
	if !generate {
		return
	}
	rec := &yml.Recorder{}
	ctx := &genall.GenerationContext{Collector: col, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{(deepcopy.Generator{}).CheckFilter()}},
		Roots: []*loader.Package{vload.MustLoad(pkgs(vload.File{Name: "types.go", Src: src}), root)}, InputRule: genall.InputFromFileSystem, OutputRule: rec}
	err = deepcopy.Generator{}.Generate(ctx)
	sym.Assert(err == nil && len(rec.Files) == 1, "no deepcopy code is made for what is printed")
	if len(rec.Files) != 1 {
		return
	}
	p = compiled(vload.File{Name: "types.go", Src: src}, vload.File{Name: "zz_generated.deepcopy.go", Src: string(rec.Files[0].Data)})
	for _, n := range []string{kind, kind + "Spec", kind + "Status", kind + "List"} {
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(p.Types.Scope().Lookup(n).Type()), false, p.Types, "DeepCopyObject")
		into, _, _ := types.LookupFieldOrMethod(types.NewPointer(p.Types.Scope().Lookup(n).Type()), false, p.Types, "DeepCopyInto")
		sym.Assert((obj != nil) == (n == kind || n == kind+"List"), "the kind or its list does not become a runtime.Object, or something else does")
		sym.Assert(into != nil, "a type gets no copy methods")
	}
	cp := &crd.Parser{Collector: &markers.Collector{Registry: &markers.Registry{}}, Checker: &loader.TypeChecker{}}
	pk := vload.MustLoad(pkgs(vload.File{Name: "types.go", Src: src}), root)
	cp.NeedPackage(pk)
	kinds := crd.FindKubeKinds(cp, pk.Imports()[metaPath])
	sym.Assert(len(kinds) == 1 && kinds[0].Kind == kind, "what is printed is not one kind")
	sym.Reach("generated")
}

// H_C33_kinds: every kind of up to 3 (thorough: 4) of the characters A I P a i p 1 _ . and the space, with or without a resource name.
func H_C33_kinds() {
	o := &typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Kind: sym.StringOf("kind", 0, 3+sym.Tier(), "AIPaip1_. ")}}
	given := sym.Bool("resource")
	if given {
		o.Resource.Resource = "things"
	}
	kind := o.Resource.Kind
	err := o.Validate()
	valid := token.IsIdentifier(kind) && token.IsExported(kind) && flect.Pascalize(kind) == kind
	sym.Assert(sym.Iff(err == nil, valid), "a kind that is valid is rejected, or one that is not is accepted")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(o.Resource.Kind == kind, "the kind is changed")
	want := "things"
	if !given {
		want = flect.Pluralize(strings.ToLower(kind))
	}
	sym.Assert(o.Resource.Resource == want, "the resource is not the one given or the plural of the kind")
	check(o, want, false)
}

// H_C33_options: every combination of options, with a resource name of up to 2 letters and additional help of up to 4 (thorough: 6)
// of the characters a and newline.
func H_C33_options() {
	o := &typescaffold.ScaffoldOptions{
		Resource:        typescaffold.Resource{Kind: []string{"Widget", "BigBox", "Bus"}[sym.Choose("kind", 3)], Namespaced: sym.Bool("namespaced")},
		GenerateClients: sym.Bool("clients"),
		AdditionalHelp:  sym.StringOf("help", 0, 4+2*sym.Tier(), "a\n"),
	}
	want := map[string]string{"Widget": "widgets", "BigBox": "bigboxes", "Bus": "buses"}[o.Resource.Kind]
	if sym.Bool("resource") {
		want = sym.StringOf("name", 1, 2, "abcdefghijklmnopqrstuvwxyz")
		o.Resource.Resource = want
	}
	err := o.Validate()
	sym.Assert(err == nil, "valid options are rejected")
	sym.Assert(o.Resource.Resource == want, "the resource is not the one given or the plural of the kind")
	check(o, want, o.AdditionalHelp == "" || o.AdditionalHelp == "a")
}

type full struct{ left int }

func (f *full) Write(b []byte) (int, error) {
	if f.left < len(b) {
		return f.left, errors.New("full")
	}
	f.left -= len(b)
	return len(b), nil
}

// H_C33_fault: writing fails after any multiple of 16 bytes up to 640.
func H_C33_fault() {
	o := &typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Kind: "Widget", Namespaced: sym.Bool("namespaced")}, GenerateClients: sym.Bool("clients")}
	err := o.Validate()
	sym.Assert(err == nil, "valid options are rejected")
	err = o.Scaffold(&full{16 * sym.IntIn("room", 0, 40)})
	sym.Assert(err != nil, "an error of writing is swallowed")
	sym.Reach("failed")
}
