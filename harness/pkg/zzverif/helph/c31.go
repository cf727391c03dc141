// Package helph checks what the tools say about markers and options (C31). It is built together with a copy of the current files of
// cmd/controller-gen.
//
//gosym:copy cmd/controller-gen
package helph

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/fatih/color"
	"github.com/spf13/cobra"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/genall/help"
	prettyhelp "sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

func must(d *markers.Definition, err error) *markers.Definition {
	if err != nil {
		panic(err)
	}
	return d
}

// mixed has arguments of all kinds.
type mixed struct {
	Int   int
	Num   float64 `marker:",optional"`
	Str   *string
	Flag  bool
	List  []string          `marker:",optional"`
	Lists [][]int           `marker:"deep"`
	Words map[string]string `marker:",optional"`
	Any   interface{}       `marker:"what,optional"`
}

type arg struct {
	name, typ, field string
	opt              bool
}

type output struct {
	obj  interface{}
	args []arg
}

var outputs = []output{
	{"", []arg{{"", "string", "", false}}},
	{struct{}{}, nil},
	{mixed{}, []arg{
		{"deep", "[][]int", "Lists", false}, {"flag", "bool", "Flag", false}, {"int", "int", "Int", false}, {"list", "[]string", "List", true},
		{"num", "*", "Num", true}, {"str", "string", "Str", true}, {"what", "any", "Any", true}, {"words", "*", "Words", true},
	}},
	{1.5, []arg{{"", "*", "", false}}},
	{markers.RawArguments(nil), []arg{{"", "raw", "", false}}},
	{[]interface{}{}, []arg{{"", "[]any", "", false}}},
	{0, []arg{{"", "int", "", false}}},
	{false, []arg{{"", "bool", "", false}}},
}

var targets = []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}
var targetNames = []string{"package", "type", "field"}

// sameType compares the type of an argument in help with what it is; numbers and maps may be called anything that tells them from the
// others.
func sameType(a help.FieldHelp, w arg) bool {
	s := a.TypeString()
	if w.typ == "*" {
		for _, t := range []string{"", "int", "string", "bool", "any", "raw", "slice", "invalid", "[]"} {
			if s == t {
				return false
			}
		}
		return true
	}
	return s == w.typ
}

// H_C31_docs: up to 2 (thorough: 3) definitions of any kind, registered for any targets under any names of up to 2 letters, with help or
// without: any categories, summaries, details and help for arguments of a letter or none, deprecated or not, registered in any order.
func H_C31_docs() {
	reg := &markers.Registry{}
	n := 1 + sym.Choose("defs", 2+sym.Tier())
	type one struct {
		d      *markers.Definition
		target int
		h      *markers.DefinitionHelp
		args   []arg
		name   string
	}
	var all []one
	for i := 0; i < n; i++ {
		s := fmt.Sprint(i)
		kinds := len(outputs)
		if i > 0 {
			kinds = 3
		}
		o := outputs[sym.Choose("kind", kinds)]
		x := one{target: sym.Choose("target", 3), args: o.args, name: sym.StringOf("name"+s, 1, 2-min(i, 1), "abc"[:3-min(i, 1)])}
		x.d = must(markers.MakeDefinition(x.name, targets[x.target], o.obj))
		if sym.Bool("help" + s) {
			x.h = &markers.DefinitionHelp{Category: sym.StringOf("cat"+s, 0, 1, "ab"), DetailedHelp: markers.DetailedHelp{Summary: sym.StringOf("sum"+s, 1, 1, "ab\n\xff"), Details: sym.StringOf("det"+s, 1, 1, "ab\n\xff")},
				FieldHelp: map[string]markers.DetailedHelp{}}
			if sym.Bool("deprecated" + s) {
				e := sym.StringOf("favor"+s, 0, 1, "abc")
				x.h.DeprecatedInFavorOf = &e
			}
			for _, a := range x.args {
				if a.field != "" && a.field != "Flag" {
					x.h.FieldHelp[a.field] = markers.DetailedHelp{Summary: a.field + sym.StringOf("fs"+s, 1, 1, "xy"), Details: sym.StringOf("fd"+s, 1, 1, "xy") + a.name}
				}
			}
		}
		for _, p := range all {
			sym.Assume(p.name != x.name || p.target != x.target)
		}
		all = append(all, x)
		if err := reg.Register(x.d); err != nil {
			panic(err)
		}
		if x.h != nil {
			reg.AddHelp(x.d, x.h)
		}
	}
	sym.MapOrder(sym.Choose("order", 2+sym.Tier()))
	cats := help.ByCategory(reg, help.SortByCategory)
	sym.MapOrder(0)
	count := 0
	for i, c := range cats {
		sym.Assert(i == 0 || cats[i-1].Category < c.Category, "the categories are in order, each once")
		sym.Assert(len(c.Markers) > 0, "no category is empty")
		for j, m := range c.Markers {
			count++
			sym.Assert(j == 0 || c.Markers[j-1].Name <= m.Name, "the markers of a category are in order")
			found := 0
			for _, x := range all {
				if m.Name != x.name || m.Target != targetNames[x.target] {
					continue
				}
				found++
				h := markers.DefinitionHelp{}
				if x.h != nil {
					h = *x.h
				}
				sym.Assert(sym.StrEq(h.Category, c.Category) && sym.StrEq(h.Category, m.Category), "a marker is in its category")
				sym.Assert(sym.And(sym.StrEq(m.Summary, h.Summary), sym.StrEq(m.Details, h.Details)), "a marker has its help")
				sym.Assert((m.DeprecatedInFavorOf == nil) == (h.DeprecatedInFavorOf == nil), "a marker is marked as deprecated if it is")
				if h.DeprecatedInFavorOf != nil && m.DeprecatedInFavorOf != nil {
					sym.Assert(*m.DeprecatedInFavorOf == *h.DeprecatedInFavorOf, "what to use in place of a deprecated marker is named")
				}
				sym.Assert(len(m.Fields) == len(x.args), "all arguments are listed, each once")
				if len(m.Fields) != len(x.args) {
					continue
				}
				for k, a := range x.args {
					f := m.Fields[k]
					sym.Assert(f.Name == a.name, "arguments are listed by name, in order")
					sym.Assert(f.Optional == a.opt, "an argument is optional if it may be left out")
					sym.Assert(sameType(f, a), "an argument has its type")
					sym.Assert(sym.And(sym.StrEq(f.Summary, h.FieldHelp[a.field].Summary), sym.StrEq(f.Details, h.FieldHelp[a.field].Details)), "an argument has the help of its field")
				}
			}
			sym.Assert(found == 1, "what is listed is registered")
		}
	}
	sym.Assert(count == n, "every marker is listed once")
}

// find is where the line that text is in goes on after it, or -1.
func after(text, what string, from int) int {
	if from < 0 {
		return -1
	}
	i := strings.Index(text[from:], what)
	if i < 0 {
		return -1
	}
	return from + i + len(what)
}

func syntax(f help.FieldHelp) string {
	s := f.Name + "=<" + f.TypeString() + ">"
	return s
}

// H_C31_pages: any 1 or 2 markers with up to 2 arguments, with texts of up to 2 letters, spaces, percent signs, (in details) line breaks and zero bytes (details of up to three lines), with summaries or without, on each kind of page:
// all of what it is for is there, in order, and the columns of the summary are aligned.
func H_C31_pages() {
	color.NoColor = true
	text := func(id string) string { return id + sym.StringOf(id, 2, 2, "ab %\n\x00") }
	flat := func(id string) string { return id + sym.StringOf(id, 1, 1, "ab %") }
	n := 1 + sym.Choose("n", 2)
	var ms []help.MarkerDoc
	for i := 0; i < n; i++ {
		s := fmt.Sprint(i)
		m := help.MarkerDoc{Name: "NAME" + s + sym.StringOf("name"+s, i, 2-i, "ab %"), Target: flat("TARGET" + s), DetailedHelp: help.DetailedHelp{Summary: flat("SUMMARY" + s)}}
		if i == 0 && sym.Bool("det") {
			m.Details = "DETAILS" + text("MORE"+s)
			if n == 1 && sym.Bool("no summary") {
				m.Summary = ""
			}
		}
		switch sym.Choose("deprecated", 3-i) {
		case 1 + i:
			e := ""
			m.DeprecatedInFavorOf = &e
		case 2 - i:
			e := flat("FAVOR" + s)
			m.DeprecatedInFavorOf = &e
		}
		k := []int{1, 3, 0, 2}[sym.Choose("fields", 4-2*i)]
		for j := 0; j < k && j < 2; j++ {
			f := help.FieldHelp{Name: "FIELD" + s + fmt.Sprint(j), DetailedHelp: help.DetailedHelp{Summary: flat("FSUM" + s + fmt.Sprint(j))}}
			f.Type, f.Optional = "int", sym.Choose("opt", 2) == 1
			if sym.Choose("slice", 2-j) == 1 {
				f.ItemType = &help.Argument{Type: "string"}
				f.Type = "slice"
			}
			if j == 0 && i == 0 && sym.Bool("fdet"+s) {
				f.Details = text("FDETAILS" + s)
				if n == 1 && sym.Bool("no fsummary") {
					f.Summary = ""
				}
			}
			m.Fields = append(m.Fields, f)
		}
		if k == 3 { // the one argument has no name
			m.Fields = m.Fields[:1]
			m.Fields[0].Name = ""
		}
		ms = append(ms, m)
	}
	page := sym.Choose("page", 3)
	var span prettyhelp.Span
	if page == 0 {
		span = prettyhelp.MarkersSummary("GROUP", ms)
	} else {
		span = prettyhelp.MarkersDetails(page == 2, "GROUP", ms)
	}
	out := new(bytes.Buffer)
	sym.Assert(span.WriteTo(out) == nil, "a page is written")
	got := out.String()
	at := after(got, "GROUP", 0)
	sym.Assert(at >= 0, "the group is named")
	column := -1
	for i, m := range ms {
		at = after(got, "+"+m.Name, at)
		sym.Assert(at >= 0, "every marker is named, in order")
		if page == 0 {
			for j, f := range m.Fields {
				part := syntax(f)
				sep := ","
				if j == 0 {
					sep = ":"
				}
				if f.Name == "" {
					sep = ""
				}
				part = sep + part
				if f.Optional {
					part = "[" + part + "]"
				}
				sym.Assert(at >= 0 && strings.HasPrefix(got[at:], part), "the syntax of a marker has its arguments, each with its type, the optional ones in brackets")
				if at >= 0 {
					at += len(part)
				}
			}
		}
		to := after(got, m.Target, at)
		sym.Assert(to >= 0, "the target of a marker follows")
		if page == 0 && to >= 0 {
			start := to - len(m.Target)
			c := start - 1 - strings.LastIndexByte(got[:start], '\n')
			sym.Assert(i == 0 || c == column, "the columns are aligned")
			sym.Assert(strings.HasSuffix(got[:start], "  "), "columns are apart")
			column = c
		}
		at = to
		if page != 0 && len(m.Fields) == 1 && m.Fields[0].Name == "" {
			at = after(got, syntax(m.Fields[0]), at)
			sym.Assert(at >= 0, "the value of a marker is shown with its type")
		}
		if m.DeprecatedInFavorOf != nil && *m.DeprecatedInFavorOf != "" {
			at = after(got, "(use "+*m.DeprecatedInFavorOf+") ", at)
			sym.Assert(at >= 0, "what to use in place of a deprecated marker is shown")
		}
		at = after(got, m.Summary, at)
		sym.Assert(at >= 0, "the summary of a marker is shown")
		if page == 2 && m.Details != "" {
			at = lines(got, m.Details, at)
			sym.Assert(at >= 0, "the details of a marker are shown")
		}
		if page == 1 {
			sym.Assert(!strings.Contains(got, "DETAILS"), "details are only on the full page")
		}
		if page == 0 || len(m.Fields) == 1 && m.Fields[0].Name == "" {
			continue
		}
		for _, f := range m.Fields {
			part := syntax(f)
			if f.Optional {
				part = "[" + part + "]"
			}
			at = after(got, part, at)
			sym.Assert(at >= 0, "every argument is shown, with its type, the optional ones in brackets")
			at = after(got, f.Summary, at)
			sym.Assert(at >= 0, "the summary of an argument is shown")
			if page == 2 && f.Details != "" {
				at = lines(got, f.Details, at)
				sym.Assert(at >= 0, "the details of an argument are shown")
			}
		}
	}
}

// lines finds the lines of a text, in order.
func lines(text, what string, at int) int {
	for _, l := range strings.Split(what, "\n") {
		at = after(text, l, at)
	}
	return at
}

// H_C31_markers: the markers of each generator, at every level but the JSON one, under three orders of the maps (map iteration).
func H_C31_markers() {
	color.NoColor = true
	names := []string{"applyconfiguration", "crd", "object", "rbac", "schemapatch", "webhook"}
	words := []string{"applyconfiguration", "crd", "object", "rbac:roleName=x", "schemapatch:manifests=x", "webhook"}
	g := sym.Choose("generator", len(names))
	sym.Assert(len(allGenerators) == len(names), "all generators are looked at")
	level := 1 + sym.Choose("level", 3)
	reg := &markers.Registry{}
	if err := allGenerators[names[g]].RegisterMarkers(reg); err != nil {
		panic(err)
	}
	var pages [2]string
	for i := range pages {
		sym.MapOrder(i * (1 + sym.Choose("order", 2)))
		c, out := &cobra.Command{}, new(bytes.Buffer)
		c.SetOut(out)
		c.SetErr(out)
		sym.Assert(printMarkerDocs(c, []string{words[g]}, level) == nil, "the markers of a generator can be shown")
		pages[i] = out.String()
	}
	sym.MapOrder(0)
	sym.Assert(pages[0] == pages[1], "the same is shown each time")
	for _, d := range reg.AllDefinitions() {
		shown(reg, d, pages[0], level)
	}
}

func shown(reg *markers.Registry, d *markers.Definition, page string, level int) {
	h := reg.HelpFor(d)
	sym.Assert(h != nil, "every marker has help: "+d.Name)
	if h == nil {
		return
	}
	sym.Assert(h.Summary != "" && h.Category != "", "every marker has a summary and a category: "+d.Name)
	for f := range h.FieldHelp {
		known := false
		for _, x := range d.FieldNames {
			known = known || x == f
		}
		sym.Assert(known, "the help of a marker is about its arguments: "+d.Name+" "+f)
	}
	// some line has the name and the target of the marker
	found := false
	for _, l := range strings.Split(page, "\n") {
		rest, ok := strings.CutPrefix(l, "+"+d.Name)
		if !ok || rest != "" && rest[0] != ' ' && rest[0] != ':' && rest[0] != '=' && rest[0] != '[' {
			continue
		}
		words := strings.Fields(rest)
		for _, w := range words {
			found = found || w == d.Target.String()
		}
	}
	sym.Assert(found, "every marker is shown: "+d.Name)
	for name, a := range d.Fields {
		part := name + "=<" + plain(a) + ">"
		if a.Type == markers.NumberType || a.Type == markers.MapType {
			part = name + "=<"
			sym.Assert(!strings.Contains(page, name+"=<>"), "every argument has a type: "+d.Name)
		}
		sym.Assert(strings.Contains(page, part), "every argument is shown with its type: "+d.Name+" "+part)
	}
}

func plain(a markers.Argument) string {
	switch a.Type {
	case markers.SliceType:
		return "[]" + plain(*a.ItemType)
	case markers.IntType:
		return "int"
	case markers.BoolType:
		return "bool"
	case markers.AnyType:
		return "any"
	case markers.RawType:
		return "raw"
	case markers.StringType:
		return "string"
	}
	return ""
}

// H_C31_options: what -h says, at every level but the JSON one, under three orders of the maps: all generators with all their options,
// and all kinds of output rules.
func H_C31_options() {
	color.NoColor = true
	level := 1 + sym.Choose("level", 3)
	var pages [2]string
	for i := range pages {
		sym.MapOrder(i * (1 + sym.Choose("order", 2)))
		out := new(bytes.Buffer)
		sym.Assert(helpForLevels(out, out, level, optionsRegistry, help.SortByOption) == nil, "the options can be shown")
		pages[i] = out.String()
	}
	sym.MapOrder(0)
	sym.Assert(pages[0] == pages[1], "the same is shown each time")
	for name, g := range allGenerators {
		option(pages[0], name, g, level)
	}
	for name, r := range allOutputRules {
		option(pages[0], "output:"+name, r, level)
	}
	option(pages[0], "paths", genall.InputPaths(nil), level)
}

func option(page, name string, obj interface{}, level int) {
	at := -1
	for _, sep := range []string{" ", ":", "[", "="} {
		if i := after(page, "\n+"+name+sep, 0); i >= 0 {
			sym.Assert(at < 0 && after(page, "\n+"+name+sep, i) < 0, "an option is shown once: "+name)
			at = i
		}
	}
	sym.Assert(at >= 0, "every option is shown: "+name)
	g, ok := obj.(genall.HasHelp)
	if !ok || at < 0 {
		return
	}
	h := g.Help()
	rest := page[at:]
	if next := strings.Index(rest, "\n+"); next >= 0 {
		rest = rest[:next]
	}
	sym.Assert(h.Summary != "" && strings.Contains(rest, h.Summary), "an option has its summary: "+name)
	if t := reflect.TypeOf(obj); t.Kind() == reflect.Struct {
		d := must(markers.MakeDefinition(name, markers.DescribesPackage, obj))
		for n, a := range d.Fields {
			part := n + "=<" + plain(a) + ">"
			if a.Optional {
				part += "]"
			}
			sym.Assert(strings.Contains(rest, part), "every argument of an option is shown: "+name+" "+part)
			fh, ok := h.FieldHelp[d.FieldNames[n]]
			sym.Assert(ok, "every argument of an option has help: "+name+" "+n)
			if level > 1 {
				sym.Assert(strings.Contains(rest, fh.Summary), "every argument of an option is explained: "+name+" "+n)
			}
			if level > 2 {
				sym.Assert(lines(rest, fh.Details, 0) >= 0, "every argument of an option is explained in full: "+name+" "+n)
			}
		}
		sym.Assert(len(h.FieldHelp) == len(d.Fields), "the help of an option is about its arguments: "+name)
	}
}
