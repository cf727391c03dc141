package crdh

import (
	"fmt"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

var pkgA, pkgB *loader.Package

func Setup_C11() {
	src := func(n string) string { return "package " + n + "\n\ntype S string\n" }
	ps, err := vload.Load([]*vload.Pkg{
		vload.One("x.org/~me/a", "a", src("a"), "x.org/b"),
		vload.One("x.org/b", "b", src("b")),
	}, "x.org/~me/a", "x.org/b")
	if err != nil || len(ps) != 2 {
		panic("load")
	}
	pkgA, pkgB = ps[0], ps[1]
}

type graph struct {
	ids  []crd.TypeIdent
	refs []schema
	// few limits the decorations to none and all
	few bool
}

func (g *graph) parser() *crd.Parser {
	skip := func(*crd.Parser, *loader.Package) {}
	p := &crd.Parser{
		Schemata:         map[crd.TypeIdent]apiext.JSONSchemaProps{},
		PackageOverrides: map[string]crd.PackageOverride{"x.org/~me/a": skip, "x.org/b": skip},
	}
	for i, id := range g.ids {
		p.Schemata[id] = *g.refs[i].DeepCopy()
	}
	return p
}

func (g *graph) link(from, to int) *string {
	path := ""
	if g.ids[from].Package != g.ids[to].Package {
		path = g.ids[to].Package.PkgPath
	}
	l := crd.TypeRefLink(path, g.ids[to].Name)
	return &l
}

func (g *graph) find(ref string, from *loader.Package) (int, bool) {
	for i, id := range g.ids {
		path := ""
		if id.Package != from {
			path = id.Package.PkgPath
		}
		if crd.TypeRefLink(path, id.Name) == ref {
			return i, true
		}
	}
	return 0, false
}

// expand replaces every reference by the type it names plus what the referring place says.
func (g *graph) expand(s schema, pkg *loader.Package) schema {
	sub := func(s *schema) *schema {
		if s == nil {
			return nil
		}
		r := g.expand(*s, pkg)
		return &r
	}
	if s.Ref != nil {
		i, ok := g.find(*s.Ref, pkg)
		sym.Assert(ok, "every reference has a target")
		s.Ref = nil
		here := g.expand(s, pkg)
		there := g.expand(g.refs[i], g.ids[i].Package)
		desc := here.Description
		if desc == "" {
			desc = there.Description
		}
		mt := there.XMapType
		if here.XMapType != nil {
			mt = here.XMapType
		}
		here.Description, there.Description = "", ""
		here.XMapType, there.XMapType = nil, nil
		return schema{AllOf: []schema{there, here}, Description: desc, XMapType: mt}
	}
	if s.Items != nil {
		s.Items = &apiext.JSONSchemaPropsOrArray{Schema: sub(s.Items.Schema)}
	}
	if s.AdditionalProperties != nil {
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: sub(s.AdditionalProperties.Schema)}
	}
	if s.Properties != nil {
		ps := map[string]schema{}
		for _, k := range []string{"a", "b", "c"} {
			if p, ok := s.Properties[k]; ok {
				ps[k] = g.expand(p, pkg)
			}
		}
		s.Properties = ps
	}
	var all []schema
	for _, b := range s.AllOf {
		all = append(all, g.expand(b, pkg))
	}
	s.AllOf = all
	return s
}

// describe lists the descriptions by path; those of embedded types do not count.
func describe(path string, s *schema, out []constraint) []constraint {
	if s.Description != "" {
		out = append(out, constraint{path: path, kind: "description", s: s.Description})
	}
	if s.Items != nil {
		out = describe(path+"/items", s.Items.Schema, out)
	}
	if s.AdditionalProperties != nil {
		out = describe(path+"/*", s.AdditionalProperties.Schema, out)
	}
	for _, k := range []string{"a", "b", "c"} {
		if v, ok := s.Properties[k]; ok {
			out = describe(path+"/"+k, &v, out)
		}
	}
	return out
}

func (g *graph) check(i int, res *schema) {
	want := g.expand(g.refs[i], g.ids[i].Package)
	w, r := constraints("", &want, nil), constraints("", res, nil)
	for _, c := range w {
		for _, d := range w {
			if c.kind == "type" && d.kind == "type" && c.path == d.path && c.s != d.s {
				return // conflicting types are reported; see C10
			}
		}
	}
	for _, c := range r {
		sym.Assert(c.kind != "ref", "a flattened schema contains a reference")
	}
	within(w, r, "a constraint of a referenced type or of the referring field is missing after flattening")
	within(r, w, "flattening invented a constraint")
}

// same package and name twice: S and T exist in both packages
func newGraph(n int) *graph {
	g := &graph{}
	all := []crd.TypeIdent{{Package: pkgA, Name: "S"}, {Package: pkgB, Name: "S"}, {Package: pkgA, Name: "T"}, {Package: pkgB, Name: "T"}}
	// a imports b
	perm := [][]int{{3, 1, 2, 0}, {3, 2, 0}, {1, 3, 2, 0}, {1, 2, 0}}
	if n == 4 {
		perm = [][]int{perm[0], perm[2]}
	}
	perm2 := perm[sym.Choose("names", len(perm))]
	for i := 0; i < n; i++ {
		g.ids = append(g.ids, all[perm2[i]])
	}
	return g
}

func (g *graph) deco(id string) schema {
	s := schema{}
	n := 4
	if g.few {
		n = 2
	}
	switch sym.Choose(id+".deco", n) {
	case 1:
		s.MaxLength = i64(id + ".max")
		s.Description = "d" + text(id+".d")
	case 2:
		s.MinLength = i64(id + ".min")
		s.XValidations = apiext.ValidationRules{{Rule: text(id + ".rule")}}
		v := text(id + ".mt")
		s.XMapType = &v
	case 3:
		s.Nullable = true
		s.Required = []string{text(id + ".req")}
	}
	return s
}

// typ makes the schema of type i, which may refer to the types before it.
func (g *graph) typ(i int) schema {
	id := fmt.Sprintf("t%d", i)
	if i == 0 {
		return schema{Type: "string", MinLength: i64(id + ".min"), Description: "leaf"}
	}
	ref := func(k string) schema {
		s := g.deco(id + k)
		s.Ref = g.link(i, sym.Choose(id+k+".to", i))
		return s
	}
	switch sym.Choose(id+".shape", 6) {
	case 0: // type T U
		s := ref("")
		return s
	case 1:
		return schema{Type: "object", Properties: map[string]schema{"a": ref("a"), "b": {Type: "integer", Maximum: num(id + "b")}}, Description: "struct"}
	case 2:
		return schema{Type: "array", Items: orArray(ref("i"))}
	case 3:
		return schema{Type: "object", AdditionalProperties: orBool(ref("m"))}
	case 4: // embedded
		return schema{Type: "object", AllOf: []schema{ref("e")}, Properties: map[string]schema{"c": {Type: "string"}}}
	case 5: // type T U of its own kind, two references
		return schema{Type: "object", Properties: map[string]schema{"a": {Type: "array", Items: orArray(ref("a"))}, "c": ref("c")}}
	}
	panic("shape")
}

func flat(p *crd.Parser, id crd.TypeIdent) *schema {
	p.NeedFlattenedSchemaFor(id)
	s := p.FlattenedSchemata[id]
	return &s
}

// conflicting types are reported on the package; they are the subject of C10
func errs() int { return len(pkgA.Errors) + len(pkgB.Errors) }

// H_C11_chain: 3 types in two packages that use the same names; each an alias-like reference, struct, slice, map or embedding of earlier
// ones with decorated references; the last type's flattened schema is compared with the expansion of its references.
func H_C11_chain() {
	g := newGraph(3)
	for i := range g.ids {
		g.refs = append(g.refs, g.typ(i))
	}
	p := g.parser()
	last := len(g.ids) - 1
	res := flat(p, g.ids[last])
	g.check(last, res)
	sym.Reach("flattened")
}

// H_C11_alias: 4 types over 2 names and 2 packages where each is a decorated reference to an earlier one or a struct with one.
func H_C11_alias() {
	g := newGraph(4)
	for i := range g.ids {
		id := fmt.Sprintf("t%d", i)
		if i == 0 {
			g.refs = append(g.refs, schema{Type: "string", MinLength: i64("min")})
			continue
		}
		s := schema{Ref: g.link(i, sym.Choose(id+".to", i))}
		switch sym.Choose(id+".deco", 3) {
		case 1:
			s.MaxLength = i64(id + ".max")
			s.Description = "d" + text(id+".d")
		case 2:
			s = schema{Type: "object", Properties: map[string]schema{"a": s}}
		}
		g.refs = append(g.refs, s)
	}
	p := g.parser()
	last := len(g.ids) - 1
	res := flat(p, g.ids[last])
	g.check(last, res)
	sym.Reach("flattened")
}

// H_C11_describe: descriptions of a chain of 3 types: none or arbitrary at each type, and none, a shorter or a longer one at each field.
func H_C11_describe() {
	g := newGraph(3)
	d := func(id string) string {
		if sym.Choose(id, 2) == 0 {
			return ""
		}
		return text(id)
	}
	field := func(id string) string { return []string{"", "z", "xyz"}[sym.Choose(id, 3)] }
	g.refs = []schema{{Type: "string", Description: d("d0")}}
	for i := 1; i < 3; i++ {
		id := fmt.Sprintf("d%d", i)
		to := g.link(i, sym.Choose(id+".to", i))
		switch sym.Choose(id+".shape", 4) {
		case 0:
			g.refs = append(g.refs, schema{Ref: to, Description: d(id)})
		case 1:
			g.refs = append(g.refs, schema{Type: "object", Description: d(id), Properties: map[string]schema{"a": {Ref: to, Description: field(id + "f")}, "b": {Ref: to}}})
		case 2:
			g.refs = append(g.refs, schema{Type: "array", Description: d(id), Items: orArray(schema{Ref: to, Description: field(id + "f")})})
		case 3:
			g.refs = append(g.refs, schema{Type: "object", Description: d(id), AdditionalProperties: orBool(schema{Ref: to})})
		}
	}
	p := g.parser()
	last := len(g.ids) - 1
	res := flat(p, g.ids[last])
	want := g.expand(g.refs[last], g.ids[last].Package)
	w, r := allDescriptions(&want), describe("", res, nil)
	within(w, r, "a description is missing or not the one of the referring field")
	within(r, w, "a description is not the one of the referring field, or of the type it refers to")
	sym.Reach("described")
}

// allDescriptions lists those of an expanded schema: its top level ones, and those of what its allOf parts nest.
func allDescriptions(s *schema) []constraint {
	var collapse func(s *schema) schema
	collapse = func(s *schema) schema {
		out := schema{Description: s.Description, Properties: map[string]schema{}}
		take := func(b *schema) {
			if b.Items != nil {
				x := collapse(b.Items.Schema)
				out.Items = orArray(x)
			}
			if b.AdditionalProperties != nil {
				x := collapse(b.AdditionalProperties.Schema)
				out.AdditionalProperties = orBool(x)
			}
			for _, k := range []string{"a", "b", "c"} {
				if v, ok := b.Properties[k]; ok {
					out.Properties[k] = collapse(&v)
				}
			}
		}
		var walk func(b *schema)
		walk = func(b *schema) {
			take(b)
			for i := range b.AllOf {
				walk(&b.AllOf[i])
			}
		}
		walk(s)
		return out
	}
	c := collapse(s)
	return describe("", &c, nil)
}

// H_C11_order: 3 types as in H_C11_chain (quick: with one kind of decoration); whichever types are flattened before, in whichever order and however often, each one's flattened
// schema is the same as when it is flattened alone, and the schemata of the parser stay as they were.
func H_C11_order() {
	g := newGraph(3)
	g.few = sym.Tier() == 0
	for i := range g.ids {
		g.refs = append(g.refs, g.typ(i))
	}
	p := g.parser()
	order := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}}[sym.Choose("order", 6)]
	for _, i := range order {
		flat(p, g.ids[i])
	}
	for _, i := range order {
		s := p.FlattenedSchemata[g.ids[i]]
		alone := g.parser()
		sym.Assert(sym.DeepEqual(&s, flat(alone, g.ids[i])), "the flattened schema of a type depends on what was flattened before")
		src := p.Schemata[g.ids[i]]
		sym.Assert(sym.DeepEqual(src, g.refs[i]), "flattening changed the schema it started from")
	}
	sym.Reach("ordered")
}
