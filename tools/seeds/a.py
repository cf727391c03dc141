MARK='''
package markers_test

import (
	"reflect"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/markers"
)
'''
seed('c01-leading-zero','C01','an integer argument with a leading zero that is not octal, or that means something else in octal',
 'integers are read with Go literal rules rather than as decimal numbers, so 010 becomes 8',
 [('pkg/markers/parse.go','''		val, err := strconv.Atoi(text)
''','''		val64, err := strconv.ParseInt(text, 0, strconv.IntSize)
		val := int(val64)
''')],
 MARK+'''
func TestZZDemo(t *testing.T) {
	def := markers.Must(markers.MakeDefinition("zz:demo", markers.DescribesPackage, int(0)))
	got, err := def.Parse("+zz:demo=010")
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(got, 10) {
		t.Fatalf("got %#v, want 10", got)
	}
}
''','pkg/markers')
seed('c02-unclosed-map','C02','a map argument cut off right after a complete entry',
 'an unterminated map is accepted as if it had been closed',
 [('pkg/markers/parse.go','''		if peekNoSpace(scanner) == '}' {
			break
		}
		if !expect(scanner, ',', "comma") {
			return
		}
	}

	if !expect(scanner, '}', "close curly brace") {
		return
	}

	castAndSet(out, resMap)''','''		if next := peekNoSpace(scanner); next == '}' || next == sc.EOF {
			break
		}
		if !expect(scanner, ',', "comma") {
			return
		}
	}

	if peekNoSpace(scanner) == '}' {
		scanner.Scan()
	}

	castAndSet(out, resMap)''')],
 MARK+'''
func TestZZDemo(t *testing.T) {
	def := markers.Must(markers.MakeDefinition("zz:demo", markers.DescribesPackage, map[string]int{}))
	if got, err := def.Parse("+zz:demo={a: 1, b: 2}"); err != nil || !reflect.DeepEqual(got, map[string]int{"a": 1, "b": 2}) {
		t.Fatalf("%v %v", got, err)
	}
	if got, err := def.Parse("+zz:demo={a: 1, b: 2"); err == nil {
		t.Fatalf("accepted as %v", got)
	}
}
''','pkg/markers')
seed('c03-anon-struct','C03','two registered names of which one is a prefix of the other by one segment, the longer one having arguments',
 'a marker for the longer name whose definition takes fields is parsed by the shorter definition',
 [('pkg/markers/reg.go','''	if def, exists := defs[anonName]; exists {
		return def
	}

	return defs[name]''','''	anonDef, exists := defs[anonName]
	if exists && anonDef.AnonymousField() {
		return anonDef
	}
	if def, exists := defs[name]; exists {
		return def
	}

	return anonDef''')],
 MARK+'''
var _ = reflect.DeepEqual

type zzOuter struct {
	Inner string `marker:",optional"`
}
type zzInner struct{}

func TestZZDemo(t *testing.T) {
	reg := &markers.Registry{}
	outer := markers.Must(markers.MakeDefinition("zz:outer", markers.DescribesField, zzOuter{}))
	inner := markers.Must(markers.MakeDefinition("zz:outer:inner", markers.DescribesField, zzInner{}))
	for _, d := range []*markers.Definition{outer, inner} {
		if err := reg.Register(d); err != nil {
			t.Fatal(err)
		}
	}
	if got := reg.Lookup("+zz:outer:inner=x", markers.DescribesField); got != inner {
		t.Fatalf("got %v", got)
	}
	if got := reg.Lookup("+zz:outer:other=x", markers.DescribesField); got != outer {
		t.Fatalf("got %v", got)
	}
}
''','pkg/markers')
SRC='''
package markers_test

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// zzmarkers lists which declaration of the given source has which markers and doc.
func zzmarkers(t *testing.T, src string) string {
	t.Helper()
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module demo.example/m\\n\\ngo 1.24\\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "a.go"), []byte(src), 0o644)
	t.Chdir(dir)
	pkgs, err := loader.LoadRoots("./...")
	if err != nil || len(pkgs) != 1 {
		t.Fatal(pkgs, err)
	}
	reg := &markers.Registry{}
	for name, target := range map[string]markers.TargetType{"m:pkg": markers.DescribesPackage, "m:type": markers.DescribesType, "m:field": markers.DescribesField} {
		if err := reg.Define(name, target, ""); err != nil {
			t.Fatal(err)
		}
	}
	col := &markers.Collector{Registry: reg}
	var out []string
	show := func(what string, vals markers.MarkerValues) {
		for name, vs := range vals {
			for _, v := range vs {
				out = append(out, fmt.Sprintf("%s: %s=%v", what, name, v))
			}
		}
	}
	vals, err := markers.PackageMarkers(col, pkgs[0])
	if err != nil {
		t.Fatal(err)
	}
	show("package", vals)
	if err := markers.EachType(col, pkgs[0], func(info *markers.TypeInfo) {
		show(info.Name, info.Markers)
		if info.Doc != "" {
			out = append(out, info.Name+" doc "+info.Doc)
		}
		for _, f := range info.Fields {
			show(info.Name+"."+f.Name, f.Markers)
			if f.Doc != "" {
				out = append(out, info.Name+"."+f.Name+" doc "+f.Doc)
			}
		}
	}); err != nil {
		t.Fatal(err)
	}
	sort.Strings(out)
	return strings.Join(out, "\\n")
}
'''
seed('c04-group-doc','C04','a parenthesised type declaration whose group has a godoc comment with a marker, followed by another type',
 'the markers above a parenthesised type group are given to its first type',
 [('pkg/markers/collect.go','''		if typedNode.Lparen != token.NoPos || typedNode.Tok != token.TYPE {''','''		if typedNode.Tok != token.TYPE || (typedNode.Lparen != token.NoPos && len(typedNode.Specs) > 1) {''')],
 SRC+'''
func TestZZDemo(t *testing.T) {
	got := zzmarkers(t, `package a

// The group.
// +m:type=group
type (
	// T is a type.
	T struct{}
)
`)
	if strings.Contains(got, "T: m:type") {
		t.Fatal(got)
	}
}
''','pkg/markers')
seed('c05-todo-in-code','C05','an indented line of documentation (a preformatted block, a list) that starts with TODO',
 'indented lines starting with TODO are dropped from descriptions',
 [('pkg/markers/zip.go','''		if strings.HasPrefix(line, "TODO") {
				continue
			}
'''.replace('		if','			if',1),'''			if strings.HasPrefix(strings.TrimSpace(line), "TODO") {
				continue
			}
''')],
 SRC+'''
func TestZZDemo(t *testing.T) {
	got := zzmarkers(t, "package a\\n\\n// T is a type. Example:\\n//\\n//\\tTODO: keep me\\n//\\n// End.\\ntype T struct{}\\n")
	if !strings.Contains(got, "keep me") {
		t.Fatal(got)
	}
}
''','pkg/markers')
