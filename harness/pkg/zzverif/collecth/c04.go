// Package collecth checks the association of marker comments and documentation with declarations (C04, C05).
package collecth

import (
	"fmt"
	"go/ast"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

var reg *markers.Registry

func Setup() {
	reg = &markers.Registry{}
	for _, t := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
		if err := reg.Define("m", t, ""); err != nil {
			panic(err)
		}
	}
	if err := reg.Define("q", markers.DescribesPackage, ""); err != nil {
		panic(err)
	}
}

// what follows a slot of comment lines
const (
	nextPackage = iota // the package clause
	nextType           // a type declaration (or a spec inside a type group)
	nextField          // a struct field or interface method
	nextOther          // another declaration (import, var, func, type group)
	nextClose          // the end of a declaration's body
	nextEOF
)

type slot struct {
	lines []byte // kinds of its lines
	next  int
	name  string // of the type or field
	top   bool   // at the top level of the file
}

// line kinds
const (
	blank = iota
	plain
	both    // a marker that is registered for every target
	pkgOnly // a marker that is registered for packages only
	kinds
)

type layout struct {
	src   strings.Builder
	slots []*slot
	n     int
}

// lines appends a slot of n lines of arbitrary kinds.
func (l *layout) lines(n int, next int, name string, top bool) {
	s := &slot{next: next, name: name, top: top}
	for i := 0; i < n; i++ {
		k := sym.Byte(fmt.Sprintf("line%d", l.n))
		sym.Assume(k < kinds)
		l.add(s, k)
	}
	l.slots = append(l.slots, s)
}

// fixed appends a slot with the given kinds of lines.
func (l *layout) fixed(ks string, next int, name string, top bool) {
	s := &slot{next: next, name: name, top: top}
	for i := 0; i < len(ks); i++ {
		l.add(s, byte(strings.IndexByte(" pmq", ks[i])))
	}
	l.slots = append(l.slots, s)
}

func (l *layout) add(s *slot, k byte) {
	variants := [kinds]string{"         ", "// text  ", fmt.Sprintf("//+m=%-4d", l.n), fmt.Sprintf("// +q=%-3d", l.n)}
	buf := make([]byte, len(variants[0]))
	for i := range buf {
		t := [kinds]byte{variants[0][i], variants[1][i], variants[2][i], variants[3][i]}
		buf[i] = t[k]
	}
	l.src.Write(buf)
	l.src.WriteByte('\n')
	s.lines = append(s.lines, k)
	l.n++
}

func (l *layout) code(s string) { l.src.WriteString(s + "\n") }

// trailed appends code with or without a marker at the end of the line.
func (l *layout) trailed(s string, arbitrary bool) {
	if arbitrary {
		k := sym.Byte(fmt.Sprintf("trail%d", l.n))
		sym.Assume(k < 2)
		with := " //+m=trailing"
		buf := make([]byte, len(with))
		for i := range buf {
			t := [2]byte{' ', with[i]}
			buf[i] = t[k]
		}
		s += string(buf)
	}
	l.code(s)
}

// want computes, from the layout alone, where each marker belongs.
func (l *layout) want() (pkg []string, byName map[string][]string) {
	byName = map[string][]string{}
	id := 0
	for _, s := range l.slots {
		type group struct {
			ids  []string
			only []bool
			end  int
		}
		var groups []group
		open := false
		for i, k := range s.lines {
			if k == blank {
				open = false
			} else {
				if !open {
					groups = append(groups, group{})
					open = true
				}
				g := &groups[len(groups)-1]
				g.end = i
				if k == both || k == pkgOnly {
					g.ids = append(g.ids, fmt.Sprint(id))
					g.only = append(g.only, k == pkgOnly)
				}
			}
			id++
		}
		doc := -1
		if len(groups) > 0 && groups[len(groups)-1].end == len(s.lines)-1 && s.next != nextClose && s.next != nextEOF {
			doc = len(groups) - 1
		}
		closest := len(groups) - 1
		if doc >= 0 {
			closest--
		}
		for gi, g := range groups {
			for i, m := range g.ids {
				owner := ""
				switch s.next {
				case nextPackage, nextEOF:
					owner = "package"
				case nextType:
					if gi == doc {
						if !g.only[i] {
							owner = s.name
						}
					} else if gi == closest {
						owner = s.name
						if g.only[i] {
							owner = "package"
						}
					} else if s.top {
						owner = "package"
					}
				case nextField:
					if gi >= closest && !g.only[i] {
						owner = s.name
					}
				case nextOther:
					if gi != doc && s.top {
						owner = "package"
					}
				}
				if owner == "package" {
					pkg = append(pkg, m)
				} else if owner != "" {
					byName[owner] = append(byName[owner], m)
				}
			}
		}
	}
	return pkg, byName
}

func values(v markers.MarkerValues) []string {
	var out []string
	for _, x := range v["m"] {
		out = append(out, strings.TrimSpace(x.(string)))
	}
	return out
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func load(src string) *loader.Package {
	return vload.MustLoad([]*vload.Pkg{vload.One("example.com/p", "p", src)}, "example.com/p")
}

func (l *layout) check() {
	p := load(l.src.String())
	col := &markers.Collector{Registry: reg}
	infos := map[string][]string{}
	err := markers.EachType(col, p, func(info *markers.TypeInfo) {
		infos[info.Name] = values(info.Markers)
		for _, f := range info.Fields {
			name := f.Name
			if name == "" {
				name = "(unnamed)"
			}
			if name == "X2" {
				sym.Assert(sameList(values(f.Markers), infos["A.X"]), "fields declared together share their markers")
				continue
			}
			infos[info.Name+"."+name] = values(f.Markers)
		}
	})
	byNode, err2 := col.MarkersInPackage(p)
	sym.Assert(err2 == nil, "the file is read without errors")
	got := map[string][]string{}
	inType := ""
	nodes := 0
	ast.Inspect(p.Syntax[0], func(n ast.Node) bool {
		name := ""
		switch x := n.(type) {
		case nil:
			return true
		case *ast.File:
			if _, ok := byNode[n]; ok {
				nodes++
			}
			return true
		case *ast.FuncDecl:
			inType = "func"
		case *ast.TypeSpec:
			inType = x.Name.Name
			name = inType
		case *ast.Field:
			if len(x.Names) > 0 {
				name = inType + "." + x.Names[0].Name
			} else {
				name = inType + ".(unnamed)"
			}
		}
		vals, ok := byNode[n]
		if ok {
			nodes++
		}
		if name != "" {
			got[name] = values(vals)
			sym.Assert(len(vals["q"]) == 0, "a marker that only packages have is not a declaration's")
		} else {
			sym.Assert(len(vals) == 0, "nothing else has markers")
		}
		return true
	})
	sym.Assert(nodes == len(byNode), "markers belong to nodes of the file")
	for name, ids := range infos {
		sym.Assert(sameList(ids, got[name]), "types and fields are reported with their markers")
	}
	sym.Assert(err == nil && len(p.Errors) == 0, "the file is read without errors")
	pm, err := markers.PackageMarkers(col, p)
	sym.Assert(err == nil, "the file is read without errors")
	gotPkg := values(pm)
	for _, x := range pm["q"] {
		gotPkg = append(gotPkg, strings.TrimSpace(x.(string)))
	}
	wantPkg, want := l.want()
	sort.Strings(gotPkg)
	sort.Strings(wantPkg)
	sym.Assert(sameList(gotPkg, wantPkg), "the package's markers are those that belong to no declaration")
	for name, ids := range want {
		sym.Assert(sameList(got[name], ids), "a declaration has exactly the markers of its doc comment and the comment before it")
	}
	for name, ids := range got {
		sym.Assert(len(ids) == len(want[name]), "a declaration has no other markers")
	}
}

func skeleton(vary func(i int) int, trail func(i int) bool) *layout {
	l := &layout{}
	i := 0
	code := func(s string) { l.trailed(s, trail(i)) }
	slot := func(next int, name string, top bool) {
		n := vary(i)
		if n > 0 {
			l.lines(n, next, name, top)
		} else {
			l.fixed(" m ", next, name, top)
		}
		i++
	}
	slot(nextPackage, "", true)
	l.code("package p")
	slot(nextOther, "", true)
	code("import \"fmt\"")
	slot(nextType, "A", true)
	l.code("type A struct {")
	slot(nextField, "A.X", false)
	code("X, X2 int")
	slot(nextField, "A.Y", false)
	code("Y struct { Z fmt.Stringer } `json:\"y\"`")
	slot(nextField, "A.(unnamed)", false)
	code("D")
	slot(nextClose, "", false)
	code("}")
	slot(nextOther, "", true)
	l.code("type (")
	slot(nextType, "B", false)
	code("B map[string]int")
	slot(nextType, "C", false)
	l.code("C []struct {")
	slot(nextField, "C.Q", false)
	code("Q *int")
	slot(nextClose, "", false)
	code("}")
	slot(nextClose, "", false)
	l.code(")")
	slot(nextOther, "", true)
	l.code("func (a A) f(x int) (y string) {")
	slot(nextClose, "", false)
	l.code("return \"\"")
	slot(nextClose, "", false)
	l.code("}")
	slot(nextType, "D", true)
	code("type D string")
	slot(nextOther, "", true)
	code("var v, w = 1, 2")
	slot(nextType, "E", true)
	l.code("type E interface {")
	slot(nextField, "E.M", false)
	code("M(a int, b string) (err error)")
	slot(nextClose, "", false)
	code("}")
	slot(nextEOF, "", true)
	return l
}

const slots = 22

// shapes is a file with the other shapes declarations come in: groups of one spec, constant and import groups, aliases, type
// parameters, function values and nested structs.
func shapes(vary func(i int) int, trail func(i int) bool) *layout {
	l := &layout{}
	i := 0
	code := func(s string) { l.trailed(s, trail(i)) }
	slot := func(next int, name string, top bool) {
		n := vary(i)
		if n > 0 {
			l.lines(n, next, name, top)
		} else {
			l.fixed(" m ", next, name, top)
		}
		i++
	}
	slot(nextPackage, "", true)
	l.code("package p")
	slot(nextOther, "", true)
	l.code("import (")
	slot(nextOther, "", false)
	code("\"fmt\"")
	slot(nextClose, "", false)
	l.code(")")
	slot(nextOther, "", true)
	l.code("type (")
	slot(nextType, "A", false)
	l.code("A struct {")
	slot(nextField, "A.X", false)
	code("X fmt.Stringer")
	slot(nextClose, "", false)
	l.code("}")
	slot(nextClose, "", false)
	l.code(")")
	slot(nextOther, "", true)
	l.code("const (")
	slot(nextOther, "", false)
	code("c = 1")
	slot(nextOther, "", false)
	code("d = \"x\"")
	slot(nextClose, "", false)
	l.code(")")
	slot(nextType, "B", true)
	code("type B = string")
	slot(nextType, "C", true)
	l.code("type C[T any] struct {")
	slot(nextField, "C.Y", false)
	code("Y []T")
	slot(nextClose, "", false)
	code("}")
	slot(nextOther, "", true)
	l.code("var h = func() {")
	slot(nextClose, "", false)
	code("}")
	slot(nextType, "D", true)
	code("type D func(x int) string")
	slot(nextOther, "", true)
	l.code("func g() {}")
	slot(nextType, "E", true)
	code("type E map[string]*A")
	slot(nextEOF, "", true)
	return l
}

const shapeSlots = 21

func either() (func(func(int) int, func(int) bool) *layout, int) {
	if sym.Choose("file", 2) == 1 {
		return shapes, shapeSlots
	}
	return skeleton, slots
}

func never(int) bool { return false }

// H_C04_slots: two files with types, grouped types (one and several), aliases, generic types, fields, imports, constants, functions, variables and an
// interface; any two neighbouring gaps
// between them of 2 and 3 (second file: 2) lines that are blank, text, a marker for anything or a marker for packages.
func H_C04_slots() {
	n := 2 + sym.Tier()
	file, slots := either()
	shaped := slots == shapeSlots
	at := sym.Choose("at", slots-1)
	second := 3
	if shaped && sym.Tier() == 0 {
		second = 2
	}
	l := file(func(i int) int {
		switch i {
		case at:
			return n
		case at + 1:
			return second
		}
		return 0
	}, never)
	l.check()
}

// H_C04_long: one gap of 4 (thorough: 6) lines.
func H_C04_long() {
	file, slots := either()
	at := sym.Choose("at", slots)
	n := 4 + 2*sym.Tier()
	if slots == shapeSlots && sym.Tier() == 0 {
		n = 3
	}
	l := file(func(i int) int {
		if i == at {
			return n
		}
		return 0
	}, never)
	l.check()
}

// H_C04_trailing: markers at the end of the line of a field, a type, an import or a variable, or not, before any gap of 3 (thorough: 4)
// lines: they belong to nothing, and what the gap holds is unaffected.
func H_C04_trailing() {
	file, slots := either()
	at := sym.Choose("at", slots-1)
	l := file(func(i int) int {
		if i == at+1 {
			return 3 + sym.Tier()
		}
		return 0
	}, func(i int) bool { return i == at || i == at+1 || i == at+2 })
	l.check()
}
