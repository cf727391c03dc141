package crdh

import (
	"fmt"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// collapse flattens the schema and checks the result against the constraints of the input.
func collapse(s *schema) {
	before := constraints("", s, nil)
	orig := s.DeepCopy()
	var rec recorder
	res := crd.FlattenEmbedded(s, &rec)
	sym.Assert(sym.DeepEqual(s, orig), "the schema given to FlattenEmbedded was modified")
	after := constraints("", res, nil)
	var want, got []constraint
	// one type and one map type remain at each path: conflicting types are reported, of several map types one is taken
	alts := map[string][]constraint{}
	var keys []string
	for _, c := range before {
		if c.kind == "type" || c.kind == "mapType" {
			k := c.kind + c.path
			if alts[k] == nil {
				keys = append(keys, k)
			}
			alts[k] = append(alts[k], c)
		} else {
			want = append(want, c)
		}
	}
	for _, c := range after {
		if c.kind == "mapType" || c.kind == "type" {
			k := c.kind + c.path
			within([]constraint{c}, alts[k], "the type or map type is not one that was given")
			for _, x := range keys {
				if x == k {
					alts[k] = append(alts[k], constraint{kind: "found"})
				}
			}
		} else {
			got = append(got, c)
		}
	}
	conflict := false
	for _, k := range keys {
		n := 0
		var types []constraint
		for _, c := range alts[k] {
			if c.kind == "found" {
				n++
			} else {
				types = append(types, c)
			}
		}
		sym.Assert(n == 1, "a type or map type was lost or is stated twice")
		if types[0].kind == "type" {
			for _, c := range types {
				conflict = conflict || c.s != types[0].s
			}
		}
	}
	within(want, got, "a constraint of the schema or of a branch was lost or changed")
	within(got, want, "the result states a constraint that neither the schema nor a branch has")
	sym.Assert(conflict == (len(rec.errs) > 0), "conflicting types, and nothing else, are reported")
	var left func(s *schema, depth int)
	left = func(s *schema, depth int) {
		for i := range s.AllOf {
			sym.Assert(len(s.AllOf[i].AllOf) == 0, "an allOf branch still has allOf branches of its own")
			sym.Assert(s.AllOf[i].Properties == nil && s.AllOf[i].Required == nil && s.AllOf[i].Type == "" && s.AllOf[i].AdditionalProperties == nil,
				"properties, required names and types are not merged but left in allOf")
		}
		if depth > 3 {
			return
		}
		for _, k := range []string{"a", "b", "c", "d"} {
			if p, ok := s.Properties[k]; ok {
				left(&p, depth+1)
			}
		}
	}
	left(res, 0)
	for i := 1; i < len(res.Required); i++ {
		sym.Assert(res.Required[i-1] < res.Required[i], "the required names are not sorted and unique")
	}
	sym.Reach("collapsed")
}

// H_C10_kinds: a schema and two allOf branches; any one of the 38 things a schema can say, with arbitrary values, in any of the three.
func H_C10_kinds() {
	k := kinds[sym.Choose("kind", len(kinds))]
	mask := 1 + sym.Choose("mask", 7)
	s := &schema{AllOf: make([]schema, 2)}
	if mask&1 != 0 {
		fill(s, k, "own")
	}
	for i := 0; i < 2; i++ {
		if mask&(2<<i) != 0 {
			fill(&s.AllOf[i], k, fmt.Sprintf("b%d", i))
		}
	}
	collapse(s)
}

// H_C10_pairs: two allOf branches that both say the same thing with arbitrary values while one of them, or the schema itself, also says
// another thing (all pairs).
func H_C10_pairs() {
	k := kinds[sym.Choose("kind", len(kinds))]
	k2 := kinds[sym.Choose("kind2", len(kinds))]
	s := &schema{AllOf: make([]schema, 2)}
	fill(&s.AllOf[0], k, "b0")
	fill(&s.AllOf[1], k, "b1")
	switch sym.Choose("where", 3) {
	case 0:
		fill(s, k2, "own'")
	case 1:
		fill(&s.AllOf[0], k2, "b0'")
	case 2:
		fill(&s.AllOf[1], k2, "b1'")
	}
	collapse(s)
}

// H_C10_many: 3 or 4 branches, flat or nested two deep, that all say the same thing with arbitrary values.
func H_C10_many() {
	k := kinds[sym.Choose("kind", len(kinds))]
	n := 3 + sym.Choose("n", 2)
	bs := make([]schema, n)
	for i := range bs {
		fill(&bs[i], k, fmt.Sprintf("b%d", i))
	}
	s := &schema{}
	switch sym.Choose("shape", 4) {
	case 0:
		s.AllOf = bs
	case 1: // own + branch with branches
		*s = bs[0]
		b := bs[1]
		b.AllOf = bs[2:]
		s.AllOf = []schema{b}
	case 2: // branches of a branch first
		if sym.Choose("typed", 2) == 1 && k != "type" {
			for i := range bs {
				bs[i].Type = "string"
			}
		}
		s.AllOf = []schema{{AllOf: bs[:2]}, bs[2]}
		s.AllOf = append(s.AllOf, bs[3:]...)
	case 3:
		s.AllOf = []schema{{AllOf: []schema{{AllOf: bs[:n-1]}}}, bs[n-1]}
	}
	collapse(s)
}

// H_C10_nested: the same property, additional properties or items in two or three branches, each saying one of two things, or nested
// allOf inside them.
func H_C10_nested() {
	pick := []string{"minLength", "maximum", "required", "properties", "additionalProperties", "enum", "validation", "items", "type"}
	k := pick[sym.Choose("kind", len(pick))]
	n := 2 + sym.Choose("n", 2)
	bs := make([]schema, n)
	inner := sym.Choose("inner", 3)
	where := sym.Choose("where", 3)
	for i := range bs {
		sub := schema{}
		id := fmt.Sprintf("b%d", i)
		fill(&sub, k, id)
		if inner == 1 {
			sub = schema{AllOf: []schema{sub}}
		}
		if inner == 2 {
			sub2 := schema{}
			fill(&sub2, k, id+"'")
			sub.AllOf = []schema{sub2}
		}
		switch where {
		case 0:
			bs[i].Properties = map[string]schema{"a": sub, "b": {Type: "string"}}
		case 1:
			bs[i].AdditionalProperties = orBool(sub)
		case 2:
			if i == 0 {
				bs[i].Items = orArray(sub)
			} else {
				bs[i].Properties = map[string]schema{"d": sub}
			}
		}
	}
	s := &schema{AllOf: bs}
	if sym.Choose("own", 2) == 1 {
		*s = bs[0]
		s.AllOf = bs[1:]
	}
	collapse(s)
}

// names10 is a list of n distinct required names.
func names10(id string, n int) []string {
	all := []string{"a", "b", "c", "d", "e", "f"}
	from := sym.Choose(id, len(all))
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, all[(from+i)%len(all)])
	}
	return out
}

// H_C10_required: up to 4 (5) required names out of six in the schema and up to 4 in each of two branches, every overlap: the result requires exactly
// these, each once and in order, however maps are enumerated.
func H_C10_required() {
	sym.MapOrder(sym.Choose("order", 3))
	lens := []int{0, 1, 3, 4}
	if sym.Tier() > 0 {
		lens = []int{0, 1, 2, 3, 4, 5}
	}
	n := func(id string) int { return lens[sym.Choose(id, len(lens))] }
	s := &schema{Required: names10("own", n("nown")), AllOf: []schema{{Required: names10("b0", n("nb0"))}, {Required: names10("b1", n("nb1"))}}}
	need := map[string]bool{}
	for _, l := range [][]string{s.Required, s.AllOf[0].Required, s.AllOf[1].Required} {
		for _, r := range l {
			need[r] = true
		}
	}
	var want []string
	for _, r := range []string{"a", "b", "c", "d", "e", "f"} {
		if need[r] {
			want = append(want, r)
		}
	}
	var rec recorder
	res := crd.FlattenEmbedded(s, &rec)
	same := len(res.Required) == len(want) && len(rec.errs) == 0
	for i := 0; same && i < len(want); i++ {
		same = res.Required[i] == want[i]
	}
	sym.Assert(same, "the required names are not those of the schema and its branches, each once and in order")
	sym.Reach("required")
}
