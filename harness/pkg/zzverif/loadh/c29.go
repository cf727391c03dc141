package loadh

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

var dirs = []string{"", "a", "a/n", "c"}

func pathOf(dir string) string { return strings.TrimSuffix("x.org/m/"+dir, "/") }

type tree struct {
	pkgs    []*vload.Pkg
	modules []string
	has     []bool
}

// makeTree: 4 directories (one in another), each but the first with or without a package of its own and a go.mod; each package may import
// the ones after it, or before it, in the list, and a package outside of all of them which imports the last one.
func makeTree(free bool) *tree {
	t := &tree{modules: []string{""}}
	back := sym.Choose("back", 2) == 1
	for i, d := range dirs {
		has := true
		if free {
			has = sym.Choose("package", 2) == 0
		}
		t.has = append(t.has, has)
		if i > 0 && sym.Choose("module", 2) == 1 {
			t.modules = append(t.modules, d)
		}
		if !has {
			continue
		}
		p := &vload.Pkg{Path: pathOf(d), Name: "p", Dir: d, Files: []vload.File{{Name: "t.go", Src: "package p\n"}}}
		for j := range dirs {
			if j > i && !back || j < i && back {
				p.Imports = append(p.Imports, pathOf(dirs[j]))
			}
		}
		if i == 0 && !back || i == len(dirs)-1 && back {
			p.Imports = append(p.Imports, "y.org/o")
		}
		t.pkgs = append(t.pkgs, p)
	}
	o := &vload.Pkg{Path: "y.org/o", Name: "o", Dir: "../o", Files: []vload.File{{Name: "t.go", Src: "package o\n"}}}
	if back {
		o.Imports = []string{pathOf(dirs[0])}
	} else {
		o.Imports = []string{pathOf(dirs[len(dirs)-1])}
	}
	t.pkgs = append(t.pkgs, o)
	return t
}

func under(d, top string) bool { return top == "" || d == top || strings.HasPrefix(d, top+"/") }

// root: one way to name something: a directory, or a directory with everything below it, or an import path
type root struct {
	text string // relative to the working directory, which is the top of the tree
	dir  string
	all  bool
}

var rootForms = []root{
	{"./...", "", true}, {".", "", false}, {"./a/...", "a", true}, {"./a", "a", false}, {"./a/../c", "c", false}, {"./a/n/", "a/n", false},
	{"a/../c", "", false}, // (stands for the import path of c)
	{"./c/...", "c", true}, {"../top/a/...", "a", true},
}

// expected: the packages that roots name; ok is false if one of them names nothing that can be loaded.
func (t *tree) expected(rs []root) (paths []string, ok bool) {
	set := map[string]bool{}
	for _, r := range rs {
		if r.text == "a/../c" {
			if !t.has[3] {
				return nil, false
			}
			set[pathOf("c")] = true
			continue
		}
		for i, d := range dirs {
			if !t.has[i] {
				if !r.all && d == r.dir {
					return nil, false
				}
				continue
			}
			if d == r.dir || r.all && under(d, r.dir) {
				set[pathOf(d)] = true
			}
		}
	}
	for p := range set {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	return paths, true
}

func (t *tree) run(rs []root, how int) {
	top := filepath.Join(vload.Scratch(), "top")
	cfg := &packages.Config{}
	var texts []string
	for _, r := range rs {
		x := r.text
		switch {
		case x == "a/../c":
			x = pathOf("c")
		case how == 2:
			x = top + "/" + x
		}
		texts = append(texts, x)
	}
	if err := os.MkdirAll(top, 0o755); err != nil {
		panic(err)
	}
	for _, d := range dirs {
		if err := os.MkdirAll(filepath.Join(top, d), 0o755); err != nil {
			panic(err)
		}
	}
	switch how {
	case 0:
		old, _ := os.Getwd()
		if err := os.Chdir(top); err != nil {
			panic(err)
		}
		defer os.Chdir(old)
	case 1:
		cfg.Dir = top
	}
	dir := cfg.Dir
	got, err := vload.LoadTree(top, t.pkgs, t.modules, cfg, texts...)
	want, ok := t.expected(rs)
	sym.Assert(cfg.Dir == dir, "the configuration's directory is as before")
	sym.Assert((err == nil) == ok, "an error exactly if a root names no package")
	if err != nil {
		sym.Reach("error")
		return
	}
	var paths []string
	byPath := map[string]*loader.Package{}
	for _, p := range got {
		paths = append(paths, p.PkgPath)
		byPath[p.PkgPath] = p
	}
	sort.Strings(paths)
	sym.Assert(strings.Join(paths, " ") == strings.Join(want, " "), "exactly the packages that the roots name, each once")
	seen := map[*loader.Package]bool{}
	for _, p := range got {
		t.walk(p, byPath, seen)
	}
	sym.Reach("loaded")
}

func (t *tree) walk(p *loader.Package, roots map[string]*loader.Package, seen map[*loader.Package]bool) {
	if seen[p] {
		return
	}
	seen[p] = true
	if r := roots[p.PkgPath]; r != nil {
		sym.Assert(r == p, "a root is one and the same package wherever it is imported")
	}
	for _, q := range p.Imports() {
		t.walk(q, roots, seen)
	}
}

// H_C29_one: every root of 9 forms (directories written in different ways, with and without `...`, an import path), relative to the working
// or the configured directory or absolute, in every tree of 4 directories with or without packages and modules.
func H_C29_one() {
	t := makeTree(true)
	t.run([]root{rootForms[sym.Choose("root", len(rootForms))]}, sym.Choose("how", 3))
}

// H_C29_two: every pair of roots followed by none or a third one of 3 (quick) or 9 forms, in every tree of 4 directories with packages, with or without modules.
func H_C29_two() {
	t := makeTree(false)
	rs := []root{rootForms[sym.Choose("root", len(rootForms))], rootForms[sym.Choose("root'", len(rootForms))]}
	if sym.Tier() > 0 {
		rs = append(rs, rootForms[sym.Choose("root''", len(rootForms))])
	} else if i := sym.Choose("root''", 4); i > 0 {
		rs = append(rs, []root{rootForms[1], rootForms[3], rootForms[4]}[i-1])
	}
	t.run(rs, sym.Choose("how", 2+sym.Tier()))
}

// H_C29_text: every root of up to 5 (6) characters of `./a` that starts with a dot, in a tree with packages in a, a/a and .a (and at the top or
// not), a and a/a being modules or not.
func H_C29_text() {
	t := &tree{modules: []string{"."}}
	ds := []string{"a", "a/a", ".a"}
	if sym.Choose("package", 2) == 1 {
		ds = append(ds, "")
	}
	switch sym.Choose("module", 3) {
	case 1:
		t.modules = append(t.modules, "a")
	case 2:
		t.modules = append(t.modules, "a/a")
	}
	for _, d := range ds {
		t.pkgs = append(t.pkgs, &vload.Pkg{Path: pathOf(d), Name: "p", Dir: d, Files: []vload.File{{Name: "t.go", Src: "package p\n"}}})
	}
	text := "." + sym.StringOf("root", 0, 4+sym.Tier(), "./a")
	top := filepath.Join(vload.Scratch(), "top")
	got, err := vload.LoadTree(top, t.pkgs, t.modules, &packages.Config{Dir: top}, text)
	// what the text names
	var at []string
	out, all, odd := 0, false, false
	for len(text) > 0 {
		i := strings.IndexByte(text, '/')
		part := text
		if i >= 0 {
			part, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		if all && part != "" && part != "." {
			odd = true // something after `...`: which directories that names is not specified here
		}
		switch part {
		case "", ".":
		case "..":
			if len(at) > 0 {
				at = at[:len(at)-1]
			} else {
				out++
			}
		case "...":
			all = true
		default:
			if out == 0 {
				at = append(at, part)
			}
		}
	}
	if odd {
		sym.Reach("odd")
		return
	}
	if out > 0 {
		sym.Assert(err != nil, "what is outside of the tree is no package")
		sym.Reach("outside")
		return
	}
	dir := strings.Join(at, "/")
	exists := false
	for _, d := range append([]string{""}, ds...) {
		exists = exists || d == dir
	}
	var want []string
	for _, d := range ds {
		if d == dir || all && under(d, dir) {
			want = append(want, pathOf(d))
		}
	}
	sort.Strings(want)
	sym.Assert((err != nil) == (len(want) == 0 && (!all || !exists)), "an error exactly if the root names no package")
	var paths []string
	for _, p := range got {
		paths = append(paths, p.PkgPath)
	}
	sort.Strings(paths)
	sym.Assert(strings.Join(paths, " ") == strings.Join(want, " "), "exactly the packages that the root names")
	sym.Reach("text")
}
