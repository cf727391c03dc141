package markersh

import (
	"fmt"

	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// H_C03_lookup: up to 3 (thorough: 4) definitions of any kind, registered under arbitrary names of up to 3 letters and colons for any
// targets, and any marker text of up to 5 letters, colons and equal signs.
func H_C03_lookup() {
	targets := []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}
	n := 1 + sym.Choose("defs", 3+sym.Tier())
	var defs []*markers.Definition
	reg := &markers.Registry{}
	for i := 0; i < n; i++ {
		name := sym.StringOf(fmt.Sprintf("n%d", i), 1, 3, "ab:")
		target := targets[sym.Choose("target", 3)]
		var out interface{} = ""
		if i == 1 {
			out = full{}
		}
		d := must(markers.MakeDefinition(name, target, out))
		sym.Assert(reg.Register(d) == nil, "registering succeeds")
		defs = append(defs, d)
	}
	text := sym.StringOf("t", 1, 5, "ab:=")
	target := targets[sym.Choose("lookup", 3)]
	got := reg.Lookup("+"+text, target)

	long := text
	short := text
	for i := 0; i < len(text); i++ {
		if text[i] == '=' {
			long = text[:i]
			short = long
			for k := len(long) - 1; k >= 0; k-- {
				if long[k] == ':' {
					short = long[:k]
					break
				}
			}
			break
		}
	}
	var want *markers.Definition
	for _, d := range defs {
		if d.Target == target && sym.StrEq(d.Name, short) {
			want = d
		}
	}
	for i, d := range defs {
		if d.Target == target && sym.StrEq(d.Name, long) {
			want = defs[i]
		}
	}
	sym.Assert(got == want, "looking a marker up gives the definition of that name and target")
	if got != nil {
		sym.Assert(got.Target == target, "the definition is for the target")
	}
}

// H_C03_readings: a marker with a colon and a value, with any subset of its two readings registered, in either order, for its own and
// for the other targets; the definition that is found parses the value.
func H_C03_readings() {
	c := sym.StringOf("c", 1, 1, "abcdefghijklmnopqrstuvwxyz")
	val := sym.StringOf("v", 1, 1, bareEnds)
	sym.Assume(c != "s")
	target := []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}[sym.Choose("target", 3)]
	other := []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}[sym.Choose("other", 3)]
	sym.Assume(other != target)
	type one struct{ S string }
	anon := must(markers.MakeDefinition("x:s", target, ""))
	withArg := must(markers.MakeDefinition("x", target, one{}))
	unrelated := must(markers.MakeDefinition("x:"+c, target, ""))
	foreign := must(markers.MakeDefinition("x:s", other, ""))
	hasAnon, hasArg := sym.Choose("anon", 2) == 1, sym.Choose("arg", 2) == 1
	reg := &markers.Registry{}
	var regs []*markers.Definition
	if hasAnon {
		regs = append(regs, anon)
	}
	if hasArg {
		regs = append(regs, withArg)
	}
	if sym.Choose("unrelated", 2) == 1 {
		regs = append(regs, unrelated)
	}
	if sym.Choose("foreign", 2) == 1 {
		regs = append(regs, foreign)
	}
	if sym.Choose("reverse", 2) == 1 {
		for i, j := 0, len(regs)-1; i < j; i, j = i+1, j-1 {
			regs[i], regs[j] = regs[j], regs[i]
		}
	}
	for _, d := range regs {
		sym.Assert(reg.Register(d) == nil, "registering succeeds")
	}
	text := "+x:s=" + val
	got := reg.Lookup(text, target)
	switch {
	case hasAnon:
		sym.Assert(got == anon, "the longer reading is preferred")
		v, err := got.Parse(text)
		sym.Assert(err == nil && sym.StrEq(v.(string), val), "the value goes to the marker")
	case hasArg:
		sym.Assert(got == withArg, "the shorter reading is used when the longer is not registered")
		v, err := got.Parse(text)
		sym.Assert(err == nil && sym.StrEq(v.(one).S, val), "the value goes to the argument")
	default:
		sym.Assert(got == nil, "nothing is found when neither reading is registered")
	}
}

// H_C03_all: any definitions registered, in any order, are all listed, and each has the help it was given.
func H_C03_all() {
	reg := &markers.Registry{}
	targets := []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}
	var defs []*markers.Definition
	var helps []*markers.DefinitionHelp
	n := 1 + sym.Choose("defs", 3)
	for i := 0; i < n; i++ {
		d := must(markers.MakeDefinition(sym.StringOf(fmt.Sprintf("n%d", i), 1, 2, "ab:"), targets[sym.Choose("target", 3)], ""))
		h := &markers.DefinitionHelp{}
		if sym.Choose("first", 2) == 1 {
			reg.AddHelp(d, h)
			sym.Assert(reg.Register(d) == nil, "registering succeeds")
		} else {
			sym.Assert(reg.Register(d) == nil, "registering succeeds")
			reg.AddHelp(d, h)
		}
		defs, helps = append(defs, d), append(helps, h)
	}
	all := reg.AllDefinitions()
	live := 0
	for i, d := range defs {
		sym.Assert(reg.HelpFor(d) == helps[i], "a definition has the help it was given")
		replaced := false
		for _, e := range defs[i+1:] {
			if e.Target == d.Target && sym.StrEq(e.Name, d.Name) {
				replaced = true
			}
		}
		seen := 0
		for _, a := range all {
			if a == d {
				seen++
			}
		}
		if replaced {
			sym.Assert(seen == 0, "a definition that was replaced is not listed")
		} else {
			live++
			sym.Assert(seen == 1, "every definition is listed once")
		}
	}
	sym.Assert(len(all) == live, "nothing else is listed")
	bad := must(markers.MakeDefinition("q", markers.TargetType(3+sym.Choose("bad", 2)), ""))
	sym.Assert(reg.Register(bad) != nil, "a definition for an unknown target is an error")
}
