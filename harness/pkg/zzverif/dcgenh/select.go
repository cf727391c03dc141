package dcgenh

import (
	"fmt"
	"path/filepath"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

// H_C19_rejects: a type that cannot be copied (an interface, a function, a channel, an array, a map whose keys hold pointers, an unsafe
// pointer; written out, named, or from another package), in up to 2 (thorough: 3) pointers, slices and maps, in a field next to others or as
// a named type: the generator reports an error instead of generating code that shares memory.
func H_C19_rejects() {
	t := []string{"interface{ M() }", "any", "error", "func()", "chan int", "[2]int", "[2]*int", "map[*int]int", "map[any]int", "map[e.Key]bool", "unsafe.Pointer", "Iface", "Func",
		"Arr", "BadMap", "e.Iface", "e.Func", "e.Arr", "AnyAlias"}[sym.Choose("type", 19)]
	for i := 0; i < 2+sym.Tier(); i++ {
		t = []string{"", "*", "[]", "map[string]"}[sym.Choose("in", 4)] + t
	}
	src := "import (\n\t\"unsafe\"\n\te \"x.org/e\"\n)\n\nvar X unsafe.Pointer\nvar Y e.Fine\n\n" +
		`// +kubebuilder:object:generate=false
type Iface interface{ M() }

// +kubebuilder:object:generate=false
type Func func()

// +kubebuilder:object:generate=false
type Arr [3]int

// +kubebuilder:object:generate=false
type BadMap map[*int]int

type AnyAlias = any

`
	switch sym.Choose("where", 3) {
	case 0:
		src += "type S struct {\n\tA *int\n\tF " + t + "\n\tB []int\n}\n"
	case 1:
		sym.Assume(t[0] != '*') // a pointer type gets no methods
		src += "type S " + t + "\n"
	case 2:
		src += "type S struct {\n\tU\n}\n\ntype U struct{ f " + t + " }\n"
	}
	p, _, err := generate([]*vload.Pkg{
		vload.One("unsafe", "unsafe", "package unsafe\n"),
		vload.One("x.org/e", "e", "package e\n\ntype Iface interface{ M() }\ntype Func func()\ntype Arr [3]int\ntype Fine string\ntype Key struct{ A string; B *int }\n"),
		rootPkg(src, "unsafe", "x.org/e"),
	})
	sym.Assert(err != nil || len(p.Errors) > 0, "a type that cannot be copied is not reported: "+t)
	sym.Reach("rejected")
}

// H_C26_types: a package that asks for code for all its types (with either marker, or the other way around), or not, with types of all
// kinds, one of which has any of the markers for types (asking for code or for none, in either form, as object or not), with methods of
// its own or not: DeepCopy, DeepCopyInto and DeepCopyObject are generated for exactly those types that are asked for, and only those
// methods that a type does not have yet.
func H_C26_types() {
	all := false
	pm := []string{"", "// +kubebuilder:object:generate=true\n", "// +kubebuilder:object:generate=false\n", "// +k8s:deepcopy-gen=package\n", "// +k8s:deepcopy-gen=package,register\n",
		"// +k8s:deepcopy-gen=false\n", "// +kubebuilder:object:generate=false\n// +k8s:deepcopy-gen=package\n", "// +kubebuilder:object:generate=true\n// +k8s:deepcopy-gen=none\n", "// +other\n"}
	i := sym.Choose("package", len(pm))
	switch i {
	case 1, 3, 4, 7:
		all = true
	}
	src := pm[i] + "package root\n\n"

	kinds := []struct {
		name, decl string
		ptr, copy  bool
	}{
		{"A", "struct{ F *int }", true, true}, {"A", "[]int", false, true}, {"A", "map[string][]int", false, true}, {"A", "B", true, true}, {"A", "string", true, false},
		{"a", "struct{ F *int }", true, false}, {"A", "*B", false, false}, {"A", "= B", true, false}, {"A", "struct{}", true, true}, {"A", "Str", true, false}, {"A", "Names", false, true},
	}
	k := kinds[sym.Choose("kind", len(kinds))]
	enabled, object := all, false
	switch sym.Choose("generate", 6) {
	case 1:
		src += "// +kubebuilder:object:generate=true\n"
		enabled = true
	case 2:
		src += "// +kubebuilder:object:generate=false\n"
		enabled = false
	case 3:
		src += "// +k8s:deepcopy-gen=true\n"
		enabled = true
	case 4:
		src += "// +k8s:deepcopy-gen=false\n"
		enabled = false
	case 5:
		src += "// +kubebuilder:object:generate=false\n// +k8s:deepcopy-gen=true\n"
		enabled = false
	default:
		enabled = all
	}
	explicit := strings.Contains(src[len(pm[i]):], "generate") || strings.Contains(src[len(pm[i]):], "k8s")
	switch sym.Choose("object", 5) {
	case 1:
		src += "// +kubebuilder:object:root=true\n"
		object = true
	case 2:
		src += "// +kubebuilder:object:root=false\n"
	case 3:
		src += "// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object\n"
		object = true
	case 4:
		src += "// +k8s:deepcopy-gen:interfaces=example.org/other.Object\n// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object\n"
		object = true
	}
	if !explicit && object {
		enabled = true
	}
	src += "type " + k.name + " " + k.decl + "\n\n"
	recv, res := k.name, k.name
	if k.ptr {
		recv, res = "*"+k.name, "*"+k.name
	}
	hasCopy, hasInto := false, false
	if k.decl[0] != '*' && k.decl[0] != '=' {
		switch sym.Choose("methods", 4) {
		case 1:
			hasCopy = true
			src += "func (x " + recv + ") DeepCopy() " + res + " { return x }\n\n"
		case 2:
			hasInto = true
			src += "func (x " + recv + ") DeepCopyInto(o *" + k.name + ") {}\n\n"
		case 3:
			hasCopy, hasInto = true, true
			src += "func (x " + recv + ") DeepCopyInto(o *" + k.name + ") {}\n\n"
			src += "func (x " + recv + ") DeepCopy() " + res + " { return x }\n\n"
		}
	}
	if k.name == "A" && (hasCopy || hasInto) && !k.copy {
		k.copy = true // its other methods are filled in, whatever it is
	}
	src += "type B struct{ G []int }\n\ntype Str string\n\ntype Names []Str\n\ntype iface interface{}\n"

	p, out, err := generate([]*vload.Pkg{object_(), vload.One(root, "root", src)})
	sym.Assert(err == nil && len(p.Errors) == 0, "supported types are rejected")
	text := ""
	for _, f := range out {
		text += string(f.Data)
	}
	sym.Assert(len(out) < 2, "one file for a package")
	want := func(cond bool, what string) {
		n := strings.Count(text, what)
		if cond {
			sym.Assert(n == 1, "missing in what is generated: "+what)
		} else {
			sym.Assert(n == 0, "not asked for, but generated: "+what)
		}
	}
	yes := enabled && k.copy
	want(yes && !hasInto, fmt.Sprintf("func (in %s) DeepCopyInto(out *%s) {", recv, k.name))
	want(yes && !hasCopy, fmt.Sprintf("func (in %s) DeepCopy() %s {", recv, res))
	if !hasCopy {
		want(yes && object, fmt.Sprintf("func (in %s) DeepCopyObject() runtime.Object {", recv))
	}
	want(all, "func (in *B) DeepCopyInto(out *B) {")
	want(all, "func (in *B) DeepCopy() *B {")
	want(all, "func (in Names) DeepCopy() Names {")
	want(false, "Str) DeepCopy")
	want(false, "iface) DeepCopy")
	sym.Assert((text == "") == (len(out) == 0), "an empty file")
	sym.Reach("generated")
}

func object_() *vload.Pkg { o := *object; return &o }

// H_C26_header: the header file's text, of which any line may hold the word YEAR in any place and any 2 (thorough: 4) other characters,
// starts the generated file, with the year for YEAR where that stands alone; without a header file there is none; a header that cannot be
// read is an error and nothing is written.
func H_C26_header() {
	dir := vload.Scratch()
	h := "/*\nCopyright" + []string{" YEAR", "", " YEAR YEAR", "YEAR", " YEARS, YEAR"}[sym.Choose("year", 5)] + " by " + sym.StringOf("s", 0, 2+2*sym.Tier(), "abYEAR *%\n") + ".\n*/\n// YEAR\n"
	sym.Assume(!strings.Contains(h[2:len(h)-12], "*/"))
	name := filepath.Join(dir, "header.txt")
	g := deepcopy.Generator{HeaderFile: name, Year: []string{"", "2026", "%s"}[sym.Choose("the year", 3)]}
	miss := false
	switch sym.Choose("file", 3) {
	case 0:
		vload.Put(name, h)
	case 1:
		g.HeaderFile, h = "", ""
	case 2:
		miss = true
	}
	p := vload.MustLoad([]*vload.Pkg{rootPkg("type A struct{ B *int }\n")}, root)
	rec := &yml.Recorder{}
	ctx := &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{}, Roots: []*loader.Package{p},
		InputRule: genall.InputFromFileSystem, OutputRule: rec}
	err := g.Generate(ctx)
	if miss {
		sym.Assert(err != nil && len(rec.Files) == 0, "a header that cannot be read is not reported")
		sym.Reach("missing")
		return
	}
	sym.Assert(err == nil && len(p.Errors) == 0 && len(rec.Files) == 1, "generates a file")
	if len(rec.Files) != 1 {
		return
	}
	text := string(rec.Files[0].Data)
	want := "//go:build !ignore_autogenerated\n\n" + strings.ReplaceAll(h, " YEAR", " "+g.Year)
	for strings.Contains(want, " \n") { // formatting removes blanks at the ends of lines
		want = strings.ReplaceAll(want, " \n", "\n")
	}
	sym.Assert(strings.HasPrefix(text, strings.TrimSuffix(want, "\n")), "the header is there as it is, but for the year")
	sym.Assert(strings.Contains(text, "func (in *A) DeepCopyInto(out *A) {"), "the code follows the header")
	sym.Reach("header")
}
