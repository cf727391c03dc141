package main

import (
	"fmt"
	"go/types"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "sigs.k8s.io/controller-tools"

// copyMain adds the current files of a package main to another package.
func copyMain(out map[string]string, repo, dir, into, tmp string) error {
	files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		s := strings.TrimPrefix(strings.Replace("\n"+string(b), "\npackage main\n", "\npackage "+filepath.Base(into)+"\n", 1), "\n")
		t := filepath.Join(tmp, filepath.Base(into)+"_"+strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(f))
		if err := os.WriteFile(t, []byte(s), 0o644); err != nil {
			return err
		}
		out[filepath.Join(into, "copy_"+filepath.Base(f))] = t
	}
	return nil
}

// overlayFiles maps repo paths to harness files (the harness tree mirrors the repository's layout).
func overlayFiles(harnessDir, repo, tmp string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.WalkDir(harnessDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harnessDir, p)
		out[filepath.Join(repo, rel)] = p
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		// a package main cannot be imported: "//gosym:copy DIR" adds the files of DIR to the harness's own package
		for _, line := range strings.Split(string(b), "\n") {
			if dir, ok := strings.CutPrefix(line, "//gosym:copy "); ok {
				if err := copyMain(out, repo, strings.TrimSpace(dir), filepath.Join(repo, filepath.Dir(rel)), tmp); err != nil {
					return err
				}
			}
		}
		return nil
	})
	for dst, src := range generated {
		out[dst] = src
	}
	return out, err
}

// generated are files that generators of the repository's current tree made from harness files with a "//gosym:generate OPTIONS" line.
var generated map[string]string

// runGenerators builds controller-gen and runs it on those packages below the given directories. A failure of the generator itself (as
// opposed to its build) comes back as a message.
func runGenerators(repo, harnessDir, tmp string) (failure string, err error) {
	bin := filepath.Join(tmp, "controller-gen")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/controller-gen")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "CGO_ENABLED=0", "GOPROXY=off", "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building controller-gen: %v\n%s", err, out)
	}
	ov, err := overlayFiles(harnessDir, repo, tmp)
	if err != nil {
		return "", err
	}
	// the generators read files from disk: the packages stand in a module of their own, with the repository's dependencies
	mod := filepath.Join(tmp, "module")
	options := map[string]string{} // by directory in the repository
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return "", err
		}
		for _, line := range strings.Split(string(b), "\n") {
			if o, ok := strings.CutPrefix(line, "//gosym:generate "); ok {
				rel, _ := filepath.Rel(repo, filepath.Dir(dst))
				options[rel] = o
				if err := os.MkdirAll(filepath.Join(mod, rel), 0o755); err != nil {
					return "", err
				}
				if err := os.WriteFile(filepath.Join(mod, rel, filepath.Base(dst)), b, 0o644); err != nil {
					return "", err
				}
			}
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(mod, f), b, 0o644); err != nil {
			return "", err
		}
	}
	res := map[string]string{}
	for rel, o := range options {
		dir := filepath.Join(tmp, "generated", rel)
		args := append(strings.Fields(o), "paths=./"+rel, "output:dir="+dir)
		cmd := exec.Command(bin, args...)
		cmd.Dir = mod
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off", "GOWORK=off")
		if out, err := cmd.CombinedOutput(); err != nil {
			msg := string(out)
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			failure += fmt.Sprintf("controller-gen %s: %v\n%s\n", strings.Join(args, " "), err, msg)
			continue
		}
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			res[filepath.Join(repo, rel, filepath.Base(f))] = f
		}
	}
	generated = res
	return failure, nil
}

// badGenerated is what is wrong with generated code.
type badGenerated struct{ msg string }

func (b badGenerated) Error() string { return b.msg }

// loadProgram builds SSA for the harness packages and everything they depend on, from the repository's current tree.
func loadProgram(repo, harnessDir string, pkgs []string) (*Program, []*ssa.Package, error) {
	tmp, err := os.MkdirTemp("", "gosym-src-")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(tmp)
	ov, err := overlayFiles(harnessDir, repo, tmp)
	if err != nil {
		return nil, nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		if strings.Contains(string(b), "//gosym:native") {
			continue // native-only file (replay support)
		}
		overlay[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-tags=gosym,math_big_pure_go", "GOPROXY=off", "GOWORK=off"),
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	bad := ""
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			for g := range generated {
				if strings.HasPrefix(e.Pos, g+":") {
					bad += e.Error() + "\n"
				}
			}
		}
	})
	if bad != "" {
		return nil, nil, badGenerated{"generated code does not compile:\n" + bad}
	}
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Program{prog: prog, globals: map[*ssa.Global]int{}, repoPath: repo, intr: mkIntrinsics(), mergeFns: map[string]bool{},
		models: map[string]*ssa.Function{}, sizes: types.SizesFor("gc", "amd64")}
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, nil, fmt.Errorf("runtime package not loaded")
	}
	p.errStringT = canon(rt.Pkg.Scope().Lookup("errorString").Type())
	if vl := prog.ImportedPackage(repoMod + "/pkg/zzverif/vload"); vl != nil {
		for k, f := range map[string]string{
			"golang.org/x/tools/go/packages.Load": "ModelLoad",
			"os.ReadFile":                         "ModelReadFile",
			"os.Open":                             "ModelOpen",
			"os.Create":                           "ModelCreate",
			"os.OpenFile":                         "ModelOpenFile",
			"os.MkdirAll":                         "ModelMkdirAll",
			"os.WriteFile":                        "ModelWriteFile",
			"os.TempDir":                          "ModelTempDir",
			"os.CreateTemp":                       "ModelCreateTemp",
			"os.MkdirTemp":                        "ModelMkdirTemp",
			"os.Remove":                           "ModelRemove",
			"os.RemoveAll":                        "ModelRemoveAll",
			"os.Stat":                             "ModelStat",
			"os.Lstat":                            "ModelLstat",
			"os.Getwd":                            "ModelGetwd",
			"os.Chdir":                            "ModelChdir",
			"os.ReadDir":                          "ModelReadDir",
			"(*os.File).Write":                    "ModelFileWrite",
			"(*os.File).WriteString":              "ModelFileWriteString",
			"(*os.File).Read":                     "ModelFileRead",
			"(*os.File).Close":                    "ModelFileClose",
			"(*os.File).Name":                     "ModelFileName",
		} {
			if fn := vl.Func(f); fn != nil {
				p.models[k] = fn
			}
		}
	}
	if sp := prog.ImportedPackage(repoMod + "/pkg/zzverif/sym"); sp != nil {
		for k, f := range map[string]string{
			"encoding/json.Unmarshal": "ModelJSONUnmarshal",
		} {
			if fn := sp.Func(f); fn != nil {
				p.models[k] = fn
			}
		}
	}
	if gp := prog.ImportedPackage(repoMod + "/pkg/zzverif/gengom"); gp != nil {
		for k, f := range map[string]string{
			"k8s.io/klog/v2.V": "ModelV",
			"(*k8s.io/gengo/v2/generator.Context).ExecuteTargets": "ModelExecuteTargets",
		} {
			if fn := gp.Func(f); fn != nil {
				p.models[k] = fn
			}
		}
	}
	if yp := prog.ImportedPackage(repoMod + "/pkg/zzverif/yml"); yp != nil {
		for k, f := range map[string]string{
			"gopkg.in/yaml.v2.Unmarshal": "ModelUnmarshal",
			"gopkg.in/yaml.v2.Marshal":   "ModelMarshal",
			"sigs.k8s.io/yaml.Unmarshal": "ModelKyamlUnmarshal",
		} {
			if fn := yp.Func(f); fn != nil {
				p.models[k] = fn
			}
		}
	}
	for _, n := range defaultMerge {
		p.mergeFns[n] = true
	}
	return p, spkgs, nil
}

// small pure functions that are summarised (all their paths merged into one symbolic result)
var defaultMerge = []string{
	"unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsPrint",
	"(*text/scanner.Scanner).isIdentRune", "text/scanner.digitVal", "text/scanner.lower", "text/scanner.isDecimal", "text/scanner.isHex",
	"unicode.isExcludingLatin", "unicode.is16", "unicode.is32",
}
