# output, loader and remaining seeds (uses RUN of b.py)
L='pkg/loader/loader.go'
RF='pkg/loader/refs.go'
VI='pkg/loader/visit.go'
GO='pkg/genall/output.go'
CG='pkg/crd/gen.go'

seed('c27-year-once','C27','a header that has YEAR more than once',
 'the year is filled in once in the header of roles',
 [('pkg/rbac/parser.go','''	headerText = strings.ReplaceAll(headerText, " YEAR", " "+g.Year)
''','''	headerText = strings.Replace(headerText, " YEAR", " "+g.Year, 1)
''')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, _ := zzrun(t, map[string]string{"h": "# from YEAR\\n# to YEAR\\n", "a.go": "package a\\n\\n// +kubebuilder:rbac:groups=a,resources=b,verbs=get\\n"}, "rbac:roleName=x,headerFile=h,year=2026")
	zzhas(t, out["role.yaml"], "# to 2026")
}
''')

ODEMO='''
package genall

import (
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
)

func zzput(t *testing.T, r OutputRule, pkg *loader.Package, name, text string) {
	t.Helper()
	w, err := r.Open(pkg, name)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := w.Write([]byte(text)); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
}

func zzgot(t *testing.T, name, want string) {
	t.Helper()
	b, err := os.ReadFile(name)
	if err != nil || string(b) != want {
		t.Fatalf("%s: %q %v", name, b, err)
	}
}

var _ packages.Config
var _ loader.Package
'''
seed('c27-truncate','C27','writing an artifact over a longer file that is there already',
 'the rest of a longer file that an artifact replaces is kept',
 [(GO,'''	path := filepath.Join(string(o), itemPath)
	return os.Create(path)
''','''	path := filepath.Join(string(o), itemPath)
	return os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
''')],
 ODEMO+'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	zzput(t, OutputToDirectory(d), nil, "a.yaml", "longer")
	zzput(t, OutputToDirectory(d), nil, "a.yaml", "new")
	zzgot(t, filepath.Join(d, "a.yaml"), "new")
}
''','pkg/genall')
seed('c27-code-dir','C27','the rule for artifacts with a directory for code, and a package without sources in the ordinary place',
 'code of packages with sources goes next to them even if a directory for code is given',
 [(GO,'''	if o.Code != "" {
		return o.Code.Open(pkg, itemPath)
	}

	if len(pkg.CompiledGoFiles) == 0 {
''','''	if o.Code != "" && (len(pkg.CompiledGoFiles) == 0 || len(pkg.CompiledGoFiles) > 1) {
		return o.Code.Open(pkg, itemPath)
	}

	if len(pkg.CompiledGoFiles) == 0 {
''')],
 ODEMO+'''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	p := &loader.Package{Package: &packages.Package{CompiledGoFiles: []string{filepath.Join(d, "src", "a.go")}}}
	zzput(t, OutputArtifacts{Config: OutputToDirectory(d + "/config"), Code: OutputToDirectory(d + "/code")}, p, "zz.go", "x")
	zzgot(t, filepath.Join(d, "code", "zz.go"), "x")
}
''','pkg/genall')

LDEMO='''
package loader_test

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

var _ = crd.Generator{}

// zztree writes files below a scratch directory and changes to it.
func zztree(t *testing.T, files map[string]string) string {
	t.Helper()
	dir := t.TempDir()
	t.Setenv("GOFLAGS", "-mod=mod")
	t.Setenv("GOWORK", "off")
	for n, s := range files {
		n = filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(n), 0o755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(n, []byte(strings.ReplaceAll(s, "'", "`")), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	t.Chdir(dir)
	return dir
}

func zzload(t *testing.T, roots ...string) map[string]*loader.Package {
	t.Helper()
	pkgs, err := loader.LoadRoots(roots...)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]*loader.Package{}
	for _, p := range pkgs {
		if out[p.PkgPath] != nil {
			t.Fatal("twice:", p.PkgPath)
		}
		out[p.PkgPath] = p
	}
	return out
}

func zzpaths(m map[string]*loader.Package) string {
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// zzcheck type-checks p with the filter of the CRD generator and gives the type of the field F of R, and the errors of p.
func zzcheck(t *testing.T, p *loader.Package) (string, []packages.Error) {
	t.Helper()
	(&loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}}).Check(p)
	r := p.Types.Scope().Lookup("R")
	if r == nil {
		t.Fatal("no R")
	}
	return r.Type().Underlying().String(), p.Errors
}
'''
seed('c28-generic-args','C28','a reference to another package that stands only in the type arguments of an instantiated type with several parameters',
 'packages that type arguments refer to are not type-checked if there are several arguments',
 [(RF,'''func (c *referenceCollector) Visit(node ast.Node) ast.Visitor {
	if !c.filterNode(node) {
		return nil
	}
	switch typedNode := node.(type) {
	case *ast.Ident:
		// local reference or dot-import, ignore
		return nil
''','''func (c *referenceCollector) Visit(node ast.Node) ast.Visitor {
	if !c.filterNode(node) {
		return nil
	}
	switch typedNode := node.(type) {
	case *ast.IndexListExpr:
		// the arguments are only of interest where the type is declared
		ast.Walk(c, typedNode.X)
		return nil
	case *ast.Ident: // local reference or dot-import, ignore
		return nil
''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "x/x.go": "package x\\n\\ntype T struct{ V int 'json:\\"v\\"' }\\n",
		"a.go": "package m\\n\\nimport \\"m/x\\"\\n\\ntype G[A, B any] struct {\\n\\tA A 'json:\\"a\\"'\\n\\tB B 'json:\\"b\\"'\\n}\\n\\ntype R struct {\\n\\tF G[int, x.T] 'json:\\"f\\"'\\n}\\n"})
	typ, errs := zzcheck(t, zzload(t, ".")["m"])
	if len(errs) > 0 || !strings.Contains(typ, "m/x.T") {
		t.Fatal(typ, errs)
	}
}
''','pkg/loader')
seed('c28-files','C28','two files of a package that import different packages under the same name',
 'the names under which packages are imported are shared between the files of a package',
 [(RF,'''	refsByFile := make(map[*ast.File]*referenceSet)
	for _, file := range pkg.Syntax {
''','''	refsByFile := make(map[*ast.File]*referenceSet)
	byName := make(map[string]*Package)
	for _, file := range pkg.Syntax {
'''),(RF,'''		refs := &referenceSet{
			file:    file,
			imports: imports,
''','''		for name, imported := range imports.byName {
			byName[name] = imported
		}
		imports.byName = byName
		refs := &referenceSet{
			file:    file,
			imports: imports,
'''),(RF,'''	default:
		return c
	}
}

// allReferencedPackages''','''	}
	return c
}

// allReferencedPackages''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "x/x.go": "package x\\n\\ntype T struct{ V int 'json:\\"v\\"' }\\n",
		"y/y.go": "package y\\n\\ntype T struct{ V int 'json:\\"v\\"' }\\n",
		"a.go": "package m\\n\\nimport x \\"m/x\\"\\n\\ntype R struct {\\n\\tF x.T 'json:\\"f\\"'\\n}\\n",
		"b.go": "package m\\n\\nimport x \\"m/y\\"\\n\\nvar V x.T\\n"})
	m := zzload(t, ".")["m"]
	(&loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}}).Check(m)
	if x := m.Imports()["m/x"]; x.TypesInfo == nil {
		t.Fatal("not checked", m.Errors)
	}
}
''','pkg/loader')
seed('c28-empty-tag','C28','a field with an empty JSON tag (`json:""`)',
 'references in fields with an empty JSON tag are not followed',
 [(CG,'''		_, hasTag := loader.ParseAstTag(node.Tag).Lookup("json")
		// fields without JSON tags mean we have custom serialization,
		// so only visit fields with tags.
		return hasTag
''','''		// fields without JSON tags mean we have custom serialization,
		// so only visit fields with tags.
		return loader.ParseAstTag(node.Tag).Get("json") != ""
''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "x/x.go": "package x\\n\\ntype T struct{ V int 'json:\\"v\\"' }\\n",
		"a.go": "package m\\n\\nimport \\"m/x\\"\\n\\ntype R struct {\\n\\tF x.T 'json:\\"\\"'\\n}\\n"})
	typ, errs := zzcheck(t, zzload(t, ".")["m"])
	if len(errs) > 0 || !strings.Contains(typ, "m/x.T") {
		t.Fatal(typ, errs)
	}
}
''','pkg/loader')
seed('c28-dot-skip','C28','a package that is imported with a dot next to one imported under a name',
 'packages imported with a dot are type-checked only in files that refer to nothing by name',
 [(RF,'''	for _, refs := range refsByFile {
		for _, pkg := range refs.imports.dotImports {
			allPackages[pkg] = struct{}{}
		}
		for ref := range refs.externalRefs {
''','''	for _, refs := range refsByFile {
		if len(refs.externalRefs) == 0 {
			for _, pkg := range refs.imports.dotImports {
				allPackages[pkg] = struct{}{}
			}
		}
		for ref := range refs.externalRefs {
''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "x/x.go": "package x\\n\\ntype T struct{ V int 'json:\\"v\\"' }\\n",
		"y/y.go": "package y\\n\\ntype U struct{ V int 'json:\\"v\\"' }\\n",
		"a.go": "package m\\n\\nimport . \\"m/x\\"\\nimport \\"m/y\\"\\n\\ntype R struct {\\n\\tF T 'json:\\"f\\"'\\n\\tG y.U 'json:\\"g\\"'\\n}\\n"})
	typ, errs := zzcheck(t, zzload(t, ".")["m"])
	if len(errs) > 0 || !strings.Contains(typ, "m/x.T") {
		t.Fatal(typ, errs)
	}
}
''','pkg/loader')

seed('c29-nested-nested','C29','a Go module within a nested Go module below a root with `...`',
 'packages of a module within a nested module are not loaded',
 [(L,'''			fspRoots = append(fspRoots, filepath.Join(filepath.Dir(p), "..."))
		}
		return nil
''','''			fspRoots = append(fspRoots, filepath.Join(filepath.Dir(p), "..."))
			if filepath.Dir(p) != walking {
				// the module is loaded on its own
				return filepath.SkipDir
			}
		}
		return nil
'''),(L,'''	addNestedGoModulesToRoots := func(
''','''	walking := ""
	addNestedGoModulesToRoots := func(
'''),(L,'''		if b == "..." {
			if err := filepath.WalkDir(
				d,
				addNestedGoModulesToRoots); err != nil {
''','''		if b == "..." {
			walking = d
			if err := filepath.WalkDir(walking, addNestedGoModulesToRoots); err != nil {
''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "m.go": "package m\\n", "a/go.mod": "module m/a\\n\\ngo 1.24\\n", "a/a.go": "package a\\n",
		"a/n/go.mod": "module m/a/n\\n\\ngo 1.24\\n", "a/n/n.go": "package n\\n"})
	if got := zzpaths(zzload(t, "./...")); got != "m m/a m/a/n" {
		t.Fatal(got)
	}
}
''','pkg/loader')
seed('c29-shared-seen','C29','three roots loaded separately, two of which import a package that is no root and imports the third',
 'a root is not recognised where a package imports it that another root imports too',
 [(L,'''		for i := range l.Roots {
			visitImports(l.Roots, l.Roots[i], nil)
		}
''','''		seen := sets.Set[string]{}
		for i := range l.Roots {
			visitImports(l.Roots, l.Roots[i], seen)
		}
''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "x/x.go": "package x\\n\\nimport _ \\"m/mid\\"\\n", "y/y.go": "package y\\n\\nimport _ \\"m/mid\\"\\n",
		"mid/mid.go": "package mid\\n\\nimport _ \\"m/z\\"\\n", "z/z.go": "package z\\n"})
	m := zzload(t, "./x", "./y", "./z")
	for _, r := range []string{"m/x", "m/y"} {
		if m[r].Imports()["m/mid"].Imports()["m/z"] != m["m/z"] {
			t.Fatal(r)
		}
	}
}
''','pkg/loader')
seed('c29-dir-restore','C29','a configuration with a directory, and a root that cannot be loaded',
 'the configuration is left changed if loading fails',
 [(L,'''	defer func(d string) {
		cfg.Dir = d
	}(cfg.Dir)
''',''),(L,'''		l.Roots = append(l.Roots, pkgs...)
	}

	return l.Roots, nil
}
''','''		l.Roots = append(l.Roots, pkgs...)
	}
	cfg.Dir = cfgDir

	return l.Roots, nil
}
''')],
 LDEMO+'''
func TestZZDemo(t *testing.T) {
	d := zztree(t, map[string]string{"go.mod": "module m\\n\\ngo 1.24\\n", "m.go": "package m\\n"})
	cfg := &packages.Config{Dir: d}
	if _, err := loader.LoadRootsWithConfig(cfg, "./missing"); err == nil || cfg.Dir != d {
		t.Fatal(err, cfg.Dir)
	}
	if _, err := loader.LoadRootsWithConfig(cfg, "."); err != nil || cfg.Dir != d {
		t.Fatal(err, cfg.Dir)
	}
}
''','pkg/loader')

KT='pkg/crd/known_types.go'
seed('c30-json-object','C30','a field of the type apiextensions v1 JSON, which may hold any value',
 'a field that may hold any JSON value only takes objects',
 [(KT,'''	"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1": func(p *Parser, pkg *loader.Package) {
		p.Schemata[TypeIdent{Name: "JSON", Package: pkg}] = apiext.JSONSchemaProps{
			XPreserveUnknownFields: ptr.To(true),
''','''	"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1": func(p *Parser, pkg *loader.Package) {
		p.Schemata[TypeIdent{Name: "JSON", Package: pkg}] = apiext.JSONSchemaProps{
			Type: "object", XPreserveUnknownFields: ptr.To(true),
''')],
 '''
package crd_test

import (
	"testing"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestZZDemo(t *testing.T) {
	roots, err := loader.LoadRoots("k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1")
	if err != nil || len(roots) != 1 {
		t.Fatal(err)
	}
	p := &crd.Parser{Collector: &markers.Collector{Registry: &markers.Registry{}}, Checker: &loader.TypeChecker{}}
	crd.AddKnownTypes(p)
	p.NeedPackage(roots[0])
	if s := p.Schemata[crd.TypeIdent{Package: roots[0], Name: "JSON"}]; s.Type != "" || s.XPreserveUnknownFields == nil || !*s.XPreserveUnknownFields {
		t.Fatal(s)
	}
}
''','pkg/crd')
seed('c30-meta-rest','C30','the option for embedded metadata together with fields of other types of the same package (times, durations)',
 'the option for embedded metadata changes how times are described',
 [(KT,'''		if f, ok := KnownPackages["k8s.io/apimachinery/pkg/apis/meta/v1"]; ok {
			f(p, pkg)
		}
''','''		if _, ok := KnownPackages["k8s.io/apimachinery/pkg/apis/meta/v1"]; ok {
			p.AddPackage(pkg)
		}
''')],
 RUN+'''
func TestZZDemo(t *testing.T) {
	out, ok := zzcrd(t, map[string]string{"a.go": zzkind("v1", "// +kubebuilder:object:root=true", "M metav1.ObjectMeta 'json:\\"m\\"'\\n\\tT metav1.Time 'json:\\"t\\"'\\n", "")}, "crd:generateEmbeddedObjectMeta=true")
	if !ok {
		t.Fatal("failed")
	}
	zzhas(t, out, "format: date-time")
}
''')
