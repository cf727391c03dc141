// Package cgmain checks how the command line of controller-gen turns into a run (C22). It is built together with a copy of the current
// files of cmd/controller-gen.
//
//gosym:copy cmd/controller-gen
package cgmain

import (
	"fmt"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

const letters = "abcdefghijklmnopqrstuvwxyz"

// Setup makes the packages that options can name known.
func Setup() {
	vload.Offer([]*vload.Pkg{
		vload.One("a.org/p", "p", "package p\n"), vload.One("a.org/q", "q", "package q\n"), vload.One("a.org/r", "r", "package r\n"),
	})
}

// option is a word of the command line and what it means.
type option struct {
	text  string
	gen   genall.Generator
	name  string // of the generator, or of the one whose output the rule is for
	rule  genall.OutputRule
	paths []string
	bad   bool
}

func word(id string) string { return sym.StringOf(id, 1, 2, letters) }

// options that name a generator
func generator(id string, kinds int) option {
	switch sym.Choose(id+".gen", kinds) {
	case 0:
		return option{text: "crd", name: "crd", gen: crd.Generator{}}
	case 1:
		return option{text: "rbac:roleName=role", name: "rbac", gen: rbac.Generator{RoleName: "role"}}
	case 2:
		return option{text: "object", name: "object", gen: deepcopy.Generator{}}
	case 3:
		return option{text: "webhook", name: "webhook", gen: webhook.Generator{}}
	case 4:
		return option{text: "applyconfiguration", name: "applyconfiguration", gen: applyconfiguration.Generator{}}
	}
	return option{text: "schemapatch:manifests=dir", name: "schemapatch", gen: schemapatcher.Generator{ManifestsPath: "dir"}}
}

// rule is an output rule for all generators (name empty) or one.
func rule(id, name string, few bool) option {
	kinds := 6
	if few {
		kinds = 3
	}
	o := option{name: name, text: "output:"}
	if name != "" {
		o.text += name + ":"
	}
	switch sym.Choose(id+".rule", kinds) {
	case 0:
		o.text, o.rule = o.text+"stdout", genall.OutputToStdout
	case 1:
		o.text, o.rule = o.text+"none", genall.OutputToNothing
	case 2:
		o.text, o.rule = o.text+"dir=d"+id, genall.OutputToDirectory("d"+id)
	case 3:
		o.text, o.rule = o.text+"artifacts:config=c"+id, genall.OutputArtifacts{Config: genall.OutputToDirectory("c" + id)}
	case 4:
		o.text, o.rule = o.text+"artifacts:code=x,config=c"+id, genall.OutputArtifacts{Config: genall.OutputToDirectory("c" + id), Code: "x"}
	default:
		o.text, o.bad = o.text+"artifacts:code=x", true // without the required config
	}
	return o
}

func paths(id string) option {
	switch sym.Choose(id+".paths", 3) {
	case 0:
		return option{text: "paths=a.org/q", paths: []string{"a.org/q"}}
	case 1:
		return option{text: "paths=a.org/p;a.org/q", paths: []string{"a.org/p", "a.org/q"}}
	}
	return option{text: "paths={a.org/r,a.org/p}", paths: []string{"a.org/r", "a.org/p"}}
}

// wrong are words that are no options.
func wrong(id string) option {
	return option{bad: true, text: []string{"bogus", "crd:bogus=1", "output:", "output:crd", "output:bogus", "output:crd:bogus", "output:bogus:dir=x", "rbac", "crd:maxDescLen=x",
		"object:", "output:dir", "crd=1", "+", "", "paths", "Crd", "output::dir=x"}[sym.Choose(id+".wrong", 17)]}
}

// check builds the run for the words and compares it with what they mean.
func check(os []option) {
	var args []string
	bad := false
	var gens []option
	rules := map[string]genall.OutputRule{}
	var want []string
	for _, o := range os {
		args = append(args, o.text)
		bad = bad || o.bad
		switch {
		case o.gen != nil:
			for _, g := range gens {
				bad = bad || g.name == o.name
			}
			gens = append(gens, o)
		case o.rule != nil:
			rules[o.name] = o.rule
		}
		for _, p := range o.paths {
			dup := false
			for _, w := range want {
				dup = dup || w == p
			}
			if !dup {
				want = append(want, p)
			}
		}
	}
	for n := range rules {
		known := n == ""
		for _, g := range gens {
			known = known || g.name == n
		}
		bad = bad || !known
	}
	rt, err := genall.FromOptions(optionsRegistry, args)
	sym.Assert((err != nil) == bad, "exactly unknown, malformed, repeated and dangling options are errors")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(rt.Generators) == len(gens), "each generator named runs once")
	for i, g := range gens {
		sym.Assert(sym.DeepEqual(*rt.Generators[i], g.gen), "a generator has the options given to it, in the order given")
		w, own := rules[g.name]
		if !own {
			if w, own = rules[""]; !own {
				w = genall.OutputArtifacts{Config: genall.OutputToDirectory("config/" + g.name)}
			}
		}
		sym.Assert(sym.DeepEqual(rt.OutputRules.ForGenerator(rt.Generators[i]), w), "output goes to the generator's own rule, else to the default one, else below config")
	}
	var got []string
	for _, r := range rt.Roots {
		got = append(got, r.PkgPath)
	}
	sym.Assert(sym.DeepEqual(got, want), "the packages are those named")
	sym.Reach("run")
}

// H_C22_single: any generator with its options, for crd arbitrary values of all of them, in any spelling.
func H_C22_single() {
	n := sym.Int("len")
	b := sym.Choose("bool", 2) == 1
	w := word("word")
	p := option{text: "paths=a.org/q", paths: []string{"a.org/q"}}
	plus := []string{"", "+"}[sym.Choose("plus", 2)]
	var o option
	switch sym.Choose("what", 7) {
	case 0:
		sym.Assume(n > -1000 && n < 1000)
		o = option{text: "crd:maxDescLen=" + strconv.Itoa(n), gen: crd.Generator{MaxDescLen: &n}}
	case 1:
		o = option{text: fmt.Sprintf("crd:ignoreUnexportedFields=%v,crdVersions=%s;v1", b, "v"+w), gen: crd.Generator{IgnoreUnexportedFields: &b, CRDVersions: []string{"v" + w, "v1"}}}
	case 2:
		o = option{text: fmt.Sprintf("crd:allowDangerousTypes=%v,generateEmbeddedObjectMeta=true,headerFile=f%s,year=y%s,deprecatedV1beta1CompatibilityPreserveUnknownFields=%v", b, w, w, !b)}
		tr, nb := true, !b
		o.gen = crd.Generator{AllowDangerousTypes: &b, GenerateEmbeddedObjectMeta: &tr, HeaderFile: "f" + w, Year: "y" + w, DeprecatedV1beta1CompatibilityPreserveUnknownFields: &nb}
	case 3:
		o = option{text: "rbac:year=1,roleName=r" + w + ",headerFile=`h " + w + "`", gen: rbac.Generator{RoleName: "r" + w, HeaderFile: "h " + w, Year: "1"}}
	case 4:
		o = option{text: `object:headerFile="h` + w + `"`, gen: deepcopy.Generator{HeaderFile: "h" + w}}
	case 5:
		o = option{text: "webhook:year=y" + w + ",headerFile=x", gen: webhook.Generator{Year: "y" + w, HeaderFile: "x"}}
	case 6:
		m := 3
		o = option{text: "schemapatch:manifests=m" + w + ",maxDescLen=3,generateEmbeddedObjectMeta=" + strconv.FormatBool(b), gen: schemapatcher.Generator{ManifestsPath: "m" + w, MaxDescLen: &m, GenerateEmbeddedObjectMeta: &b}}
	}
	o.name = strings.SplitN(o.text, ":", 2)[0]
	o.text = plus + o.text
	check([]option{o, p})
}

// H_C22_rules: one or two generators, with a default rule or not and up to two rules for any generators, in any order, with paths.
func H_C22_rules() {
	os := []option{generator("g", 2+4*sym.Tier())}
	if sym.Choose("second", 2) == 1 {
		os = append(os, option{text: "rbac:roleName=role", name: "rbac", gen: rbac.Generator{RoleName: "role"}})
	}
	if sym.Choose("default", 2) == 1 {
		os = append(os, rule("d", "", false))
	}
	n := sym.Choose("rules", 3)
	for i := 0; i < n; i++ {
		id := fmt.Sprint("r", i)
		os = append(os, rule(id, []string{"crd", "rbac", "webhook"}[sym.Choose(id+".for", 3)], i > 0))
	}
	os = append(os, paths("p"))
	if r := sym.Choose("rotate", 2+sym.Tier()); r > 0 {
		os = append(os[r:], os[:r]...)
	}
	sym.MapOrder(sym.Choose("order", 2))
	check(os)
}

// H_C22_many: any set of the six generators, each with or without a rule of its own, with a default rule or not, with the rules before or
// after the generators, in either order.
func H_C22_many() {
	var gens, rules []option
	for i, text := range []string{"crd:year=1", "rbac:roleName=role", "object:year=2", "webhook:year=3", "applyconfiguration:headerFile=x", "schemapatch:manifests=dir"} {
		name, _, _ := strings.Cut(text, ":")
		state := sym.Choose(name, 3)
		if state == 0 {
			continue
		}
		gens = append(gens, option{text: text, name: name, gen: []genall.Generator{crd.Generator{Year: "1"}, rbac.Generator{RoleName: "role"}, deepcopy.Generator{Year: "2"},
			webhook.Generator{Year: "3"}, applyconfiguration.Generator{HeaderFile: "x"}, schemapatcher.Generator{ManifestsPath: "dir"}}[i]})
		if state == 2 {
			rules = append(rules, option{text: "output:" + name + ":dir=to-" + name, name: name, rule: genall.OutputToDirectory("to-" + name)})
		}
	}
	sym.Assume(len(gens) > 0)
	switch sym.Choose("default", 3) {
	case 1:
		rules = append(rules, option{text: "output:stdout", rule: genall.OutputToStdout})
	case 2:
		rules = append([]option{{text: "output:artifacts:config=c,code=d", rule: genall.OutputArtifacts{Config: "c", Code: "d"}}}, rules...)
	}
	os := append(append([]option{}, gens...), rules...)
	if sym.Choose("rules first", 2) == 1 {
		os = append(append([]option{}, rules...), gens...)
	}
	os = append(os, option{text: "paths=a.org/r", paths: []string{"a.org/r"}})
	if sym.Choose("backwards", 2) == 1 {
		for i, j := 0, len(os)-1; i < j; i, j = i+1, j-1 {
			os[i], os[j] = os[j], os[i]
		}
	}
	check(os)
}

// H_C22_words: three words, each a generator, paths, a rule, or no option at all.
func H_C22_words() {
	var os []option
	for i := 0; i < 3; i++ {
		id := fmt.Sprint("w", i)
		switch sym.Choose(id, 4) {
		case 0:
			os = append(os, []option{
				{text: "crd", name: "crd", gen: crd.Generator{}},
				{text: "object", name: "object", gen: deepcopy.Generator{}},
				{text: "crd:year=1", name: "crd", gen: crd.Generator{Year: "1"}},
			}[sym.Choose(id+".gen", 3)])
		case 1:
			os = append(os, option{text: "paths=a.org/" + []string{"p", "q"}[sym.Choose(id+".path", 2)]})
			os[i].paths = []string{strings.TrimPrefix(os[i].text, "paths=")}
		case 2:
			os = append(os, []option{
				{text: "output:none", rule: genall.OutputToNothing},
				{text: "output:crd:dir=x", name: "crd", rule: genall.OutputToDirectory("x")},
			}[sym.Choose(id+".rule", 2)])
		case 3:
			os = append(os, wrong(id))
		}
	}
	os = append(os, option{text: "paths=a.org/r", paths: []string{"a.org/r"}})
	check(os)
}
