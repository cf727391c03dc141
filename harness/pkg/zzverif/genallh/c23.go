// Package genallh checks how generators are run and what becomes of failures (C23).
package genallh

import (
	"bytes"
	"errors"
	"fmt"
	"go/token"
	"io"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	_ "sigs.k8s.io/controller-tools/pkg/zzverif/yml" // models for the engine
)

const (
	meta    = "k8s.io/apimachinery/pkg/apis/meta/v1"
	srcMeta = `package v1

type TypeMeta struct {
	Kind string ` + "`json:\"kind,omitempty\"`" + `
}
type ObjectMeta struct {
	Name string ` + "`json:\"name,omitempty\"`" + `
}
`
	src = `// +kubebuilder:object:generate=true
// +groupName=g.x
package v1

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

// +kubebuilder:rbac:groups=g,resources=r,verbs=get
// +kubebuilder:rbac:groups=g,resources=r,verbs=get,namespace=ns
// +kubebuilder:webhook:path=/p,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.g.x,sideEffects=None,admissionReviewVersions=v1
// +kubebuilder:webhook:path=/q,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=m.g.x,sideEffects=None,admissionReviewVersions=v1

type A struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	X []int32 ` + "`json:\"x\"`" + `
}

type B struct {
	metav1.TypeMeta   ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata\"`" + `
	Y string ` + "`json:\"y\"`" + `
}
`
	src2 = `// +kubebuilder:object:generate=true
// +groupName=g.x
// +versionName=v2
package v2

type Z struct {
	X []int32 ` + "`json:\"x\"`" + `
}
`
	manifestA = `apiVersion: apiextensions.k8s.io/v1
kind: CustomResourceDefinition
spec:
  group: g.x
  names:
    kind: A
  versions:
  - name: v1
    schema:
      openAPIV3Schema:
        type: object
`
)

func roots() []*vload.Pkg {
	return []*vload.Pkg{vload.One("x.org/v1", "v1", src, meta), vload.One("x.org/v2", "v2", src2), vload.One(meta, "v1", srcMeta)}
}

var gens []genall.Generator
var wants []map[string]string // what each of them writes without a fault

// rule keeps what is written; the operation with the number at fails, and all later ones if it sticks.
type rule struct {
	files map[string]*bytes.Buffer
	open  int
	ops   int
	at    int
	stick bool
	kind  int
	hit   bool
}

func (r *rule) fail() bool {
	r.ops++
	if r.ops-1 == r.at || r.ops-1 > r.at && r.stick && r.hit {
		r.hit = true
		return true
	}
	return false
}

type file struct {
	r    *rule
	b    *bytes.Buffer
	done bool
}

func (r *rule) Open(pkg *loader.Package, name string) (io.WriteCloser, error) {
	if r.fail() {
		return nil, failure(r.kind, name)
	}
	if pkg != nil {
		name = pkg.PkgPath + "/" + name
	}
	b := &bytes.Buffer{}
	r.files[name] = b
	r.open++
	return &file{r: r, b: b}, nil
}

func failure(kind int, name string) error {
	switch kind {
	case 0:
		return errors.New("fault")
	case 1:
		return io.ErrShortWrite
	}
	return &pathError{name}
}

type pathError struct{ p string }

func (p *pathError) Error() string { return p.p + ": no space left on device" }

func (f *file) Write(b []byte) (int, error) {
	if f.done {
		panic("write after close")
	}
	if f.r.fail() {
		n := 0
		if f.r.kind == 1 {
			n = len(b) / 2
			f.b.Write(b[:n])
		}
		return n, failure(f.r.kind, "x")
	}
	return f.b.Write(b)
}

func (f *file) Close() error {
	if !f.done {
		f.r.open--
	}
	f.done = true
	if f.r.fail() {
		return failure(f.r.kind, "x")
	}
	return nil
}

func Setup() {
	dir := vload.Scratch()
	vload.Put(filepath.Join(dir, "a.yaml"), manifestA)
	vload.Put(filepath.Join(dir, "h.txt"), "# head\n")
	vload.Put(filepath.Join(dir, "h.go.txt"), "// head\n")
	gens = []genall.Generator{
		crd.Generator{HeaderFile: filepath.Join(dir, "h.txt")}, rbac.Generator{RoleName: "role"}, webhook.Generator{HeaderFile: filepath.Join(dir, "h.txt")},
		deepcopy.Generator{HeaderFile: filepath.Join(dir, "h.go.txt")}, schemapatcher.Generator{ManifestsPath: dir},
	}
	wants = nil
	for _, g := range gens {
		r := &rule{files: map[string]*bytes.Buffer{}, at: -1}
		bad, _ := run([]genall.Generator{g}, []genall.OutputRule{r}, nil)
		if bad || r.open != 0 {
			panic("a run without faults fails")
		}
		w := map[string]string{}
		for n, b := range r.files {
			w[n] = b.String()
		}
		if len(w) == 0 {
			panic("nothing is generated")
		}
		wants = append(wants, w)
	}
}

// run runs generators, each with a rule of its own, or the default one for nil.
func run(gs []genall.Generator, rules []genall.OutputRule, def genall.OutputRule) (bool, string) {
	vload.Offer(roots())
	var all genall.Generators
	for i := range gs {
		all = append(all, &gs[i])
	}
	rt, err := all.ForRoots("x.org/v1", "x.org/v2")
	sym.Assert(err == nil, "the packages load")
	rt.OutputRules.Default = def
	rt.OutputRules.ByGenerator = map[*genall.Generator]genall.OutputRule{}
	for i := range gs {
		if rules[i] != nil {
			rt.OutputRules.ByGenerator[all[i]] = rules[i]
		}
	}
	var msg bytes.Buffer
	rt.ErrorWriter = &msg
	return rt.Run(), msg.String()
}

func complete(r *rule, want map[string]string) {
	sym.Assert(len(r.files) == len(want), "every file is written, and no other")
	for n, w := range want {
		b := r.files[n]
		sym.Assert(b != nil && b.String() == w, "what is written without a fault is complete: "+n)
	}
}

// H_C23_faults: each of the five generators (crd, rbac, webhook, object, schemapatch) with two or more files or documents to write, alone,
// before or after another one, and any one of the operations of its output (opening, writing, closing) failing, once or from there on, with a
// plain error, a short write, or an error that names a file: the run fails; the other generator's output is complete. Without a
// fault the run succeeds and everything is complete. No file is left open.
func H_C23_faults() {
	g := sym.Choose("generator", len(gens))
	r := &rule{files: map[string]*bytes.Buffer{}, at: sym.Choose("at", 25), stick: sym.Bool("stick"), kind: sym.Choose("kind", 3)}
	gs, rules := []genall.Generator{gens[g]}, []genall.OutputRule{r}
	var other *rule
	o := 0
	if where := sym.Choose("other", 3); where > 0 {
		o = (g + 1 + sym.Choose("which", len(gens)-1)) % len(gens)
		other = &rule{files: map[string]*bytes.Buffer{}, at: -1}
		if where == 1 {
			gs, rules = append(gs, gens[o]), append(rules, nil)
		} else {
			gs, rules = []genall.Generator{gens[o], gens[g]}, []genall.OutputRule{nil, r}
		}
	}
	bad, _ := run(gs, rules, other)
	sym.Assert(r.open == 0, "a file is left open")
	if r.hit {
		sym.Assert(bad, "a failure to write is not reported")
		sym.Reach("fault")
	} else {
		sym.Assert(!bad, "a run without a fault is reported as failed")
		complete(r, wants[g])
		sym.Reach("fine")
	}
	if other != nil {
		complete(other, wants[o])
		sym.Assert(other.open == 0, "a file is left open")
	}
}

// fake is a generator that notes what it is given.
type fake struct {
	id   int
	fail bool
	add  error
	file bool
	log  *[]string
	ctxs *[]*genall.GenerationContext
}

func (f fake) RegisterMarkers(into *markers.Registry) error { return nil }

func (f fake) Generate(ctx *genall.GenerationContext) error {
	*f.log = append(*f.log, fmt.Sprint(f.id))
	*f.ctxs = append(*f.ctxs, ctx)
	if f.add != nil {
		ctx.Roots[len(ctx.Roots)-1].AddError(f.add)
	}
	if f.file {
		w, err := ctx.Open(nil, fmt.Sprint("f", f.id))
		if err != nil {
			return err
		}
		w.Close()
	}
	if f.fail {
		return fmt.Errorf("failure %d", f.id)
	}
	return nil
}

type checked struct{ fake }

func (checked) CheckFilter() loader.NodeFilter { return nil }

// H_C23_run: up to 3 generators, each of which fails or not, adds an error (positioned or not, of a type checker or not) to a package or
// not, wants a type checker or not, and has an output rule of its own or not; packages, or what they import, that have errors of each
// kind or not: every generator runs once, in order, with its rule and a type checker if it wants one; the run fails if and only if a
// generator failed or some package has an error that is not of the type checker; every failure is printed.
func H_C23_run() {
	n := 1 + sym.Choose("n", 3)
	def := &rule{files: map[string]*bytes.Buffer{}, at: -1}
	var log []string
	var ctxs []*genall.GenerationContext
	gs := make([]genall.Generator, n)
	rules := make([]*rule, n)
	checks := make([]bool, n)
	var fails []bool
	vload.Offer(roots())
	var all genall.Generators
	for i := range gs {
		id := fmt.Sprint("g", i)
		f := fake{id: i, fail: sym.Bool(id + ".fails"), file: true, log: &log, ctxs: &ctxs}
		fails = append(fails, f.fail)
		if i == 0 {
			switch sym.Choose(id+".adds", 4) {
			case 1:
				f.add = errors.New("some error")
				fails = append(fails, true)
			case 2:
				f.add = loader.ErrFromNode(errors.New("some error"), node{})
				fails = append(fails, true)
			case 3:
				f.add = loader.MaybeErrList([]error{errors.New("some error"), errors.New("other")})
				fails = append(fails, true)
			}
		}
		checks[i] = sym.Choose(id+".checked", 2) == 1
		gs[i] = f
		if checks[i] {
			gs[i] = checked{f}
		}
		all = append(all, &gs[i])
		if sym.Choose(id+".rule", 2) == 1 {
			rules[i] = &rule{files: map[string]*bytes.Buffer{}, at: -1}
		}
	}
	rt, err := all.ForRoots("x.org/v1", "x.org/v2")
	sym.Assert(err == nil, "the packages load")
	switch k := sym.Choose("package error", 6); k {
	case 1, 2, 3, 4:
		kind := []packages.ErrorKind{packages.UnknownError, packages.ListError, packages.ParseError, packages.TypeError}[k-1]
		p := rt.Roots[0]
		switch sym.Choose("in", 3) {
		case 1:
			p = rt.Roots[1]
		case 2:
			p = p.Imports()[meta]
		}
		p.Errors = append(p.Errors, packages.Error{Msg: "e", Pos: "-", Kind: kind})
		fails = append(fails, kind != packages.TypeError)
	case 5:
		rt.Roots[0].Errors = append(rt.Roots[0].Errors, packages.Error{Msg: "t", Pos: "-", Kind: packages.TypeError}, packages.Error{Msg: "p", Pos: "-", Kind: packages.ParseError})
		fails = append(fails, true)
	}
	rt.OutputRules = genall.OutputRules{Default: def, ByGenerator: map[*genall.Generator]genall.OutputRule{}}
	for i, r := range rules {
		if r != nil {
			rt.OutputRules.ByGenerator[all[i]] = r
		}
	}
	var msg bytes.Buffer
	rt.ErrorWriter = &msg
	bad := rt.Run()
	sym.Assert(sym.Iff(bad, sym.Or(fails...)), "the run fails if and only if something failed")
	want := ""
	for i := range gs {
		want += fmt.Sprint(i)
	}
	sym.Assert(strings.Join(log, "") == want, "every generator runs once, in order")
	for i, c := range ctxs {
		sym.Assert((c.Checker != nil) == checks[i], "exactly the generators that want one get a type checker")
		r := def
		if rules[i] != nil {
			r = rules[i]
		}
		sym.Assert(c.OutputRule == genall.OutputRule(r) && r.files[fmt.Sprint("f", i)] != nil, "a generator writes to its rule")
		if fails[0] && i == 0 {
			sym.Assert(strings.Contains(msg.String(), "failure 0"), "a failure is printed")
		}
	}
	sym.Reach("ran")
}

type tokenPos = token.Pos

type node struct{}

func (node) Pos() (p tokenPos) { return }

// H_C23_none: a run without generators fails.
func H_C23_none() {
	vload.Offer(roots())
	rt, err := genall.Generators{}.ForRoots("x.org/v1")
	sym.Assert(err == nil, "the packages load")
	var msg bytes.Buffer
	rt.ErrorWriter = &msg
	sym.Assert(rt.Run() && msg.Len() > 0, "there is nothing to run")
	sym.Reach("none")
}
