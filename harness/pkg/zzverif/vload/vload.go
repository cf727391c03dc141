// Package vload gives in-memory Go source trees (whose text may be symbolic) to the repository's real package loader.
//
// The loader itself, the parser and the type checker run unchanged. Only golang.org/x/tools/go/packages.Load (which would run the go
// command) and the file system are replaced: in the engine by the Model functions below, natively by files in a scratch directory and
// a GOPACKAGESDRIVER.
package vload

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vdriver"
)

type File struct{ Name, Src string }

type Pkg struct {
	Path    string
	Name    string
	Files   []File
	Imports []string
	Errors  []string
	// Missing makes the last file unreadable
	Missing bool
	// Dir is the name of the directory, if it differs from Path
	Dir string
}

// One makes a package of a single file.
func One(path, name, src string, imports ...string) *Pkg {
	return &Pkg{Path: path, Name: name, Files: []File{{Name: "types.go", Src: src}}, Imports: imports}
}

var current []*Pkg
var files map[string]string

func fname(p *Pkg, f File) string { return "/vsrc/" + p.dir() + "/" + f.Name }

func (p *Pkg) dir() string {
	if p.Dir != "" {
		return p.Dir
	}
	return p.Path
}

// Offer makes packages known to whoever loads packages afterwards.
func Offer(pkgs []*Pkg) {
	if sym.Symbolic() {
		Load(pkgs)
		return
	}
	offer(pkgs)
}

func offer(pkgs []*Pkg) {
	dir, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "src")
	if err != nil {
		panic(err)
	}
	man := &vdriver.Manifest{}
	for _, p := range pkgs {
		d := filepath.Join(dir, "vsrc", p.dir())
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
		mp := vdriver.Pkg{Path: p.Path, Name: p.Name, Imports: p.Imports, Errors: p.Errors}
		for i, f := range p.Files {
			fn := filepath.Join(d, f.Name)
			mp.Files = append(mp.Files, fn)
			if p.Missing && i == len(p.Files)-1 {
				continue
			}
			if err := os.WriteFile(fn, []byte(f.Src), 0o644); err != nil {
				panic(err)
			}
		}
		man.Pkgs = append(man.Pkgs, mp)
	}
	publish(dir, man)
}

func publish(dir string, man *vdriver.Manifest) {
	b, _ := json.Marshal(man)
	mf := filepath.Join(dir, "manifest.json")
	if err := os.WriteFile(mf, b, 0o644); err != nil {
		panic(err)
	}
	os.Setenv("ZZ_VLOAD_MANIFEST", mf)
}

var manifest *vdriver.Manifest

// KeepTree lets what LoadTree offers be loaded by others afterwards.
var KeepTree bool

// LoadTree runs the repository's loader in a tree of directories: the packages are in their Dir below top (a directory made by Scratch), the
// directories in modules (relative to top) hold a go.mod. cfg.Dir and the roots are handed to the loader as they are.
func LoadTree(top string, pkgs []*Pkg, modules []string, cfg *packages.Config, roots ...string) ([]*loader.Package, error) {
	man := &vdriver.Manifest{}
	for _, m := range modules {
		man.Modules = append(man.Modules, filepath.Join(top, m))
		Put(filepath.Join(top, m, "go.mod"), "module x\n")
	}
	for _, p := range pkgs {
		d := filepath.Join(top, p.Dir)
		mp := vdriver.Pkg{Path: p.Path, Name: p.Name, Imports: p.Imports, Errors: p.Errors, Dir: d}
		for _, f := range p.Files {
			mp.Files = append(mp.Files, filepath.Join(d, f.Name))
			Put(filepath.Join(d, f.Name), f.Src)
		}
		man.Pkgs = append(man.Pkgs, mp)
	}
	if sym.Symbolic() {
		manifest = man
		if !KeepTree {
			defer func() { manifest = nil }()
		}
		return loader.LoadRootsWithConfig(cfg, roots...)
	}
	dir, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "man")
	if err != nil {
		panic(err)
	}
	publish(dir, man)
	if !KeepTree {
		defer os.Unsetenv("ZZ_VLOAD_MANIFEST")
	}
	out, err := loader.LoadRootsWithConfig(cfg, roots...)
	for _, p := range out {
		if p.Dir == "" && len(p.GoFiles) > 0 {
			p.Dir = filepath.Dir(p.GoFiles[0]) // which drivers do not tell
		}
	}
	return out, err
}

func modelTree(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
	byPath := map[string]*packages.Package{}
	sizes := types.SizesFor("gc", "amd64")
	for _, p := range manifest.Pkgs {
		pp := &packages.Package{ID: p.Path, Name: p.Name, PkgPath: p.Path, Imports: map[string]*packages.Package{}, TypesSizes: sizes}
		pp.GoFiles = append(pp.GoFiles, p.Files...)
		pp.CompiledGoFiles = pp.GoFiles
		if len(p.Files) > 0 {
			pp.Dir = filepath.Dir(p.Files[0])
		}
		byPath[p.Path] = pp
	}
	for _, p := range manifest.Pkgs {
		for _, im := range p.Imports {
			if q := byPath[im]; q != nil {
				byPath[p.Path].Imports[im] = q
			}
		}
	}
	cwd := cfg.Dir
	if cwd == "" {
		cwd = modelCwd
	}
	var out []*packages.Package
	for _, pat := range patterns {
		paths, err := manifest.Match(filepath.Clean(cwd), pat)
		if err != nil {
			return nil, err
		}
		for _, p := range paths {
			out = append(out, byPath[p])
		}
	}
	if cfg.Mode&packages.NeedTypes != 0 {
		if cfg.Fset == nil {
			cfg.Fset = token.NewFileSet()
		}
		for _, pp := range out {
			check(cfg, pp)
		}
	}
	return out, nil
}

// check parses and type-checks a package and what it imports, as packages.Load does with NeedDeps, NeedSyntax and NeedTypes.
func check(cfg *packages.Config, pp *packages.Package) {
	if pp.Types != nil {
		return
	}
	pp.Fset = cfg.Fset
	for _, im := range pp.Imports {
		check(cfg, im)
	}
	for _, f := range pp.CompiledGoFiles {
		src, err := ModelReadFile(f)
		if err == nil {
			var file *ast.File
			file, err = parser.ParseFile(cfg.Fset, f, src, parser.AllErrors|parser.ParseComments)
			if file != nil {
				pp.Syntax = append(pp.Syntax, file)
			}
		}
		if err != nil {
			pp.Errors = append(pp.Errors, packages.Error{Pos: f, Msg: err.Error(), Kind: packages.ParseError})
		}
	}
	conf := types.Config{
		Sizes: pp.TypesSizes,
		Error: func(err error) {
			pp.Errors = append(pp.Errors, packages.Error{Pos: "-", Msg: err.Error(), Kind: packages.TypeError})
		},
		Importer: importer(func(path string) (*types.Package, error) {
			if im := pp.Imports[path]; im != nil {
				return im.Types, nil
			}
			return nil, errors.New("no package " + path)
		}),
	}
	pp.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	pp.Types, _ = conf.Check(pp.PkgPath, cfg.Fset, pp.Syntax, pp.TypesInfo)
}

type importer func(path string) (*types.Package, error)

func (i importer) Import(path string) (*types.Package, error) { return i(path) }

// Load runs the repository's loader on the packages; roots are package paths.
func Load(pkgs []*Pkg, roots ...string) ([]*loader.Package, error) {
	if sym.Symbolic() {
		current = pkgs
		files = map[string]string{}
		for _, p := range pkgs {
			for i, f := range p.Files {
				if p.Missing && i == len(p.Files)-1 {
					continue
				}
				files[fname(p, f)] = f.Src
			}
		}
		return loader.LoadRootsWithConfig(&packages.Config{}, roots...)
	}
	offer(pkgs)
	defer os.Unsetenv("ZZ_VLOAD_MANIFEST")
	return loader.LoadRootsWithConfig(&packages.Config{}, roots...)
}

// MustLoad loads one root package and assumes that it loaded.
func MustLoad(pkgs []*Pkg, root string) *loader.Package {
	r, err := Load(pkgs, root)
	if err != nil {
		panic(fmt.Sprintf("vload: %v", err))
	}
	if len(r) != 1 {
		panic("vload: no root")
	}
	return r[0]
}

// ModelLoad replaces packages.Load in the engine.
func ModelLoad(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if manifest != nil {
		return modelTree(cfg, patterns)
	}
	byPath := map[string]*packages.Package{}
	sizes := types.SizesFor("gc", "amd64")
	for _, p := range current {
		pp := &packages.Package{ID: p.Path, Name: p.Name, PkgPath: p.Path, Imports: map[string]*packages.Package{}, TypesSizes: sizes}
		for _, f := range p.Files {
			pp.GoFiles = append(pp.GoFiles, fname(p, f))
		}
		for _, e := range p.Errors {
			pp.Errors = append(pp.Errors, packages.Error{Pos: "-", Msg: e, Kind: packages.ListError})
		}
		pp.CompiledGoFiles = pp.GoFiles
		byPath[p.Path] = pp
	}
	for _, p := range current {
		for _, im := range p.Imports {
			if q := byPath[im]; q != nil {
				byPath[p.Path].Imports[im] = q
			}
		}
	}
	var out []*packages.Package
	for _, pat := range patterns {
		q := byPath[pat]
		if q == nil {
			return nil, errors.New("no such package " + pat)
		}
		out = append(out, q)
	}
	return out, nil
}

// ModelReadFile replaces os.ReadFile in the engine.
func ModelReadFile(name string) ([]byte, error) {
	s, ok := files[name]
	if !ok {
		if n := lookup(name); n != nil && !n.dir {
			return append([]byte(nil), n.data...), nil
		}
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return []byte(s), nil
}

// Subst replaces the text of comments: keys are the placeholder comment texts of the source given to Load.
func Subst(p *loader.Package, repl map[string]string) {
	p.NeedSyntax()
	for _, f := range p.Syntax {
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if r, ok := repl[c.Text]; ok {
					c.Text = r
				}
			}
		}
	}
}
