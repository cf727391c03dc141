// Package helpgenh checks the help that is made from documentation (C31). It is built together with a copy of the current files of
// cmd/helpgen.
//
//gosym:copy cmd/helpgen
package helpgenh

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
	"sigs.k8s.io/controller-tools/pkg/zzverif/yml"
)

const hg = "+controllertools:marker:generateHelp"

var reg *markers.Registry

// Setup registers the markers of the generator.
func Setup() {
	reg = &markers.Registry{}
	if err := (Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
}

// help is what is known about something.
type known struct{ summary, details string }

type made struct {
	category string
	known
	fields map[string]known
	order  []string
}

// docOf is the documentation of something with the name, and what it says; first lines may start with the name, or a longer word, or be
// nothing else.
func docOf(id, name string, few bool) (lines []string, k known) {
	if few {
		return []string{name + " " + id}, known{summary: id}
	}
	text := "x" + sym.StringOf(id, 1, 1, "a\"\\%`{ +") + "z"
	switch sym.Choose(id+".doc", 5) {
	case 0:
		return []string{name + " " + text}, known{summary: text}
	case 1:
		return nil, known{}
	case 2:
		more := "y" + sym.StringOf(id+"m", 1, 1, "a\"%") + "z"
		return []string{text, "", more}, known{text, more}
	case 3:
		return []string{name, "w", text}, known{"", "w\n" + text}
	}
	return []string{name + "s " + text}, known{summary: name + "s " + text}
}

func comment(lines []string, indent string) string {
	s := ""
	for _, l := range lines {
		s += strings.TrimRight(indent+"// "+l, " ") + "\n"
	}
	return s
}

// H_C31_godoc: a package with a type and a field documented in any of a number of ways (a summary that starts with the name or not,
// details, nothing), with any of 8 letters, quotes, brackets, escapes and percent signs in the text, and marked, with and without a
// category, next to other fields and types, marked or not; another package with a marked type or none; headers with a year or none, and
// no header at all.
func H_C31_godoc() {
	want := map[string]made{}
	src := "package a\n\n"
	for i, n := range []string{"B", "A"} {
		m := made{fields: map[string]known{}}
		lines, k := docOf(n, n, i == 1)
		m.known = k
		marked := i == 0 || sym.Bool("marked"+n)
		if marked {
			mark := hg
			switch sym.Choose(n+".category", 2) + i {
			case 2:
				mark, m.category = mark+":category=Cat", "Cat"
			case 1:
				mark, m.category = mark+":category=\"a b\"", "a b"
			}
			lines = append(lines, mark)
			want[n] = m
		}
		src += comment(lines, "") + "type " + n + " struct {\n"
		for j := 0; j < 2-i; j++ {
			f := []string{"X", "Y"}[j]
			fl, fk := docOf(n+f, f, i == 1 || j == 1)
			src += comment(fl, "\t") + "\t" + f + " int\n"
			m.fields[f] = fk
			m.order = append(m.order, f)
		}
		src += "}\n\n"
	}
	src += "// C is not marked.\ntype C struct{ X int }\n"
	other := "package b\n\n// D d\ntype D struct{}\n"
	head := sym.Choose("header", 3)
	otherMarked := head == 0 && sym.Bool("other")
	if otherMarked {
		other = "package b\n\n// D d\n// " + hg + "\ntype D struct{}\n"
	}
	var roots []*loader.Package
	pkgs := []*vload.Pkg{vload.One("x.org/a", "a", src), vload.One("x.org/b", "b", other)}
	for _, p := range pkgs {
		roots = append(roots, vload.MustLoad(pkgs, p.Path))
	}
	g := Generator{}
	in := &headerFile{}
	switch head {
	case 0:
		g.HeaderFile, g.Year, in.text = "h.txt", "2031", "// Copyright YEAR me, YEAR\n"
	case 1:
		g.HeaderFile, in.text = "h.txt", "// by me\n"
	}
	rec := &yml.Recorder{}
	err := g.Generate(&genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{}, Roots: roots, InputRule: in, OutputRule: rec})
	sym.Assert(err == nil, "help is generated")
	for _, r := range roots {
		sym.Assert(len(r.Errors) == 0, "no errors are reported")
	}
	files := 1
	if otherMarked {
		files = 2
	}
	sym.Assert(len(rec.Files) == files, "there is a file for each package with a marked type")
	for i, f := range rec.Files {
		sym.Assert(f.Name == "zz_generated.markerhelp.go" && f.Pkg == roots[i], "the file is called zz_generated.markerhelp.go and is for the package")
		text := string(f.Data)
		switch {
		case g.Year != "":
			sym.Assert(strings.Contains(text, "// Copyright 2031 me, 2031"), "the header has the year")
		case g.HeaderFile != "":
			sym.Assert(strings.Contains(text, "// by me"), "the file has the header")
		}
		sym.Assert(strings.Contains(text, "// Code generated by "), "the file is marked as generated")
		if i == 1 {
			want = map[string]made{"D": {known: known{summary: "d"}}}
		}
		check(text, roots[i].Name, want)
	}
}

type headerFile struct{ text string }

func (h *headerFile) OpenForRead(path string) (r readCloser, err error) {
	if path != "h.txt" {
		return nil, fmt.Errorf("no file %s", path)
	}
	return reader{strings.NewReader(h.text)}, nil
}

func check(text, name string, want map[string]made) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "h.go", text, parser.ParseComments)
	sym.Assert(err == nil, "what is generated is Go")
	if err != nil {
		return
	}
	sym.Assert(file.Name.Name == name, "the file is in its package")
	n := 0
	last := ""
	for _, d := range file.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		n++
		id, ok := fn.Recv.List[0].Type.(*ast.Ident)
		sym.Assert(ok && fn.Name.Name == "Help", "there are only methods that give help")
		if !ok {
			continue
		}
		sym.Assert(last < id.Name, "types are in order")
		last = id.Name
		m, ok := want[id.Name]
		sym.Assert(ok, "only marked types have help")
		if !ok {
			continue
		}
		lit := fn.Body.List[0].(*ast.ReturnStmt).Results[0].(*ast.UnaryExpr).X
		sym.Assert(sym.StrEq(str(get(lit, "Category")), m.category), "help has the category of the marker")
		k := get(lit, "DetailedHelp")
		sym.Assert(sym.StrEq(str(get(k, "Summary")), m.summary), "the summary is the first line without the name")
		sym.Assert(sym.StrEq(str(get(k, "Details")), m.details), "the details are the other lines")
		fields := get(lit, "FieldHelp")
		count := 0
		if c, ok := fields.(*ast.CompositeLit); ok {
			count = len(c.Elts)
		}
		sym.Assert(count == len(m.fields), "every field has help, once")
		for _, f := range m.order {
			k := get(fields, strconv.Quote(f))
			sym.Assert(k != nil, "every field has help")
			sym.Assert(sym.StrEq(str(get(k, "Summary")), m.fields[f].summary), "the summary of a field is the first line without the name")
			sym.Assert(sym.StrEq(str(get(k, "Details")), m.fields[f].details), "the details of a field are the other lines")
		}
	}
	sym.Assert(n == len(want), "every marked type has help")
}

// get is the element of a composite literal with the key.
func get(e ast.Expr, key string) ast.Expr {
	c, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil
	}
	for _, x := range c.Elts {
		kv := x.(*ast.KeyValueExpr)
		switch k := kv.Key.(type) {
		case *ast.Ident:
			if k.Name == key {
				return kv.Value
			}
		case *ast.BasicLit:
			if k.Value == key {
				return kv.Value
			}
		}
	}
	return nil
}

// str is a string literal's value; a missing one is empty.
func str(e ast.Expr) string {
	if e == nil {
		return ""
	}
	s, err := strconv.Unquote(e.(*ast.BasicLit).Value)
	sym.Assert(err == nil, "texts are string literals")
	return s
}
