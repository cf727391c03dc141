// Package vdriver answers go/packages queries for the source trees that harnesses write to disk during native replay
// (the GOPACKAGESDRIVER protocol), so that the real loader can load them without the go command.
package vdriver

import (
	"encoding/json"
	"errors"
	"io"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"
)

type Pkg struct {
	Path    string
	Name    string
	Files   []string
	Imports []string
	Errors  []string
	// Dir is the directory of the package, for patterns that name directories
	Dir string
}

// Manifest describes what can be loaded: packages and, for patterns that name directories, the directories that hold a go.mod.
type Manifest struct {
	Pkgs    []Pkg
	Modules []string
}

func below(dir, top string) bool {
	return dir == top || len(dir) > len(top) && dir[:len(top)] == top && dir[len(top)] == '/'
}

func (m *Manifest) module(dir string) string {
	best := ""
	for _, d := range m.Modules {
		if below(dir, d) && len(d) > len(best) {
			best = d
		}
	}
	return best
}

// Match gives the packages that a pattern names, as the go command does when it runs in dir: `./.` is the package of dir, `./...` are all
// packages below dir that belong to the same module as dir, anything else is an import path.
func (m *Manifest) Match(dir, pattern string) (paths []string, err error) {
	switch pattern {
	case "./.":
		for _, p := range m.Pkgs {
			if p.Dir == dir && p.Dir != "" {
				return []string{p.Path}, nil
			}
		}
		return nil, errors.New("no Go files in " + dir)
	case "./...":
		mod := m.module(dir)
		if mod == "" {
			return nil, errors.New("directory prefix . does not contain main module")
		}
		for _, p := range m.Pkgs {
			if p.Dir != "" && below(p.Dir, dir) && m.module(p.Dir) == mod {
				paths = append(paths, p.Path)
			}
		}
		return paths, nil
	}
	for _, p := range m.Pkgs {
		if p.Path == pattern {
			return []string{p.Path}, nil
		}
	}
	return nil, errors.New("no such package " + pattern)
}

func Driver() {
	io.Copy(io.Discard, os.Stdin)
	b, err := os.ReadFile(os.Getenv("ZZ_VLOAD_MANIFEST"))
	if err != nil {
		os.Exit(2)
	}
	var man Manifest
	if err := json.Unmarshal(b, &man); err != nil {
		os.Exit(2)
	}
	pkgs := man.Pkgs
	cwd, err := os.Getwd()
	if err != nil {
		os.Exit(2)
	}
	resp := &packages.DriverResponse{Compiler: "gc", Arch: "amd64", GoVersion: 24}
	byPath := map[string]*packages.Package{}
	for _, p := range pkgs {
		pp := &packages.Package{ID: p.Path, Name: p.Name, PkgPath: p.Path, GoFiles: p.Files, CompiledGoFiles: p.Files, Imports: map[string]*packages.Package{}}
		if len(p.Files) > 0 {
			pp.Dir = filepath.Dir(p.Files[0])
		}
		for _, e := range p.Errors {
			pp.Errors = append(pp.Errors, packages.Error{Pos: "-", Msg: e, Kind: packages.ListError})
		}
		byPath[p.Path] = pp
		resp.Packages = append(resp.Packages, pp)
	}
	for _, p := range pkgs {
		for _, im := range p.Imports {
			if q := byPath[im]; q != nil {
				byPath[p.Path].Imports[im] = q
			}
		}
	}
	for _, a := range os.Args[1:] {
		if a == "--" {
			continue
		}
		roots, err := man.Match(cwd, a)
		if err != nil && len(man.Modules) > 0 {
			os.Stderr.WriteString(err.Error())
			os.Exit(1)
		}
		resp.Roots = append(resp.Roots, roots...)
	}
	out, err := json.Marshal(resp)
	if err != nil {
		os.Exit(2)
	}
	os.Stdout.Write(out)
}
