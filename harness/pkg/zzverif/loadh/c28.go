// Package loadh holds the harnesses over the package loader and its partial type checker.
package loadh

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

// filters: none, that of the CRD generator, that of the deepcopy generator, both.
func filters(n int) (fs []loader.NodeFilter, needsTag bool) {
	switch n {
	case 0:
		return nil, false
	case 1:
		return []loader.NodeFilter{crd.Generator{}.CheckFilter()}, true
	case 2:
		return []loader.NodeFilter{deepcopy.Generator{}.CheckFilter()}, false
	}
	return []loader.NodeFilter{crd.Generator{}.CheckFilter(), deepcopy.Generator{}.CheckFilter()}, false
}

// field finds the type expression of a field.
func field(p *loader.Package, typ, name string) ast.Expr {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok || ts.Name.Name != typ {
					continue
				}
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					return ts.Type
				}
				for _, fl := range st.Fields.List {
					if len(fl.Names) == 1 && fl.Names[0].Name == name || len(fl.Names) == 0 && name == "" {
						return fl.Type
					}
				}
			}
		}
	}
	panic("no field")
}

func checked(p *loader.Package) bool { return p.TypesInfo != nil }

func kinds(p *loader.Package) (other, typ int) {
	for _, e := range p.Errors {
		if e.Kind == packages.TypeError {
			typ++
		} else {
			other++
		}
	}
	return
}

// resolved: t contains, at any depth, the struct type T of the package x, with its field.
func resolved(t types.Type, pkg string, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Alias:
		return resolved(t.Rhs(), pkg, seen)
	case *types.Named:
		if t.Obj().Name() == "T" && t.Obj().Pkg().Path() == pkg {
			st, ok := t.Underlying().(*types.Struct)
			return ok && st.NumFields() == 1 && st.Field(0).Name() == "V"
		}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if resolved(t.TypeArgs().At(i), pkg, seen) {
				return true
			}
		}
		return resolved(t.Underlying(), pkg, seen)
	case *types.Pointer:
		return resolved(t.Elem(), pkg, seen)
	case *types.Slice:
		return resolved(t.Elem(), pkg, seen)
	case *types.Array:
		return resolved(t.Elem(), pkg, seen)
	case *types.Map:
		return resolved(t.Key(), pkg, seen) || resolved(t.Elem(), pkg, seen)
	case *types.Chan:
		return resolved(t.Elem(), pkg, seen)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if resolved(t.Field(i).Type(), pkg, seen) {
				return true
			}
		}
	}
	return false
}

type style struct{ clause, ref string }

// ways to import the package x.org/dir-x, whose name is xpkg
var styles = []style{
	{"import \"x.org/dir-x\"", "xpkg.T"},
	{"import xpkg \"x.org/dir-x\"", "xpkg.T"},
	{"import al \"x.org/dir-x\"", "al.T"},
	{"import . \"x.org/dir-x\"", "T"},
	{"import (\n\t_ \"x.org/dir-x\"\n\tal \"x.org/dir-x\"\n)", "al.T"},
	{"import `x.org/dir-x`", "xpkg.T"},
	{"import (\n\tal \"x.org/dir-x\"\n\txpkg \"x.org/other\"\n)\n\nvar _ xpkg.O", "al.T"},
	{"import (\n\txpkg \"x.org/other\"\n\t. \"x.org/dir-x\"\n)\n\nvar _ xpkg.O", "T"},
}

// ways to mention a type; @ is the reference
var shapes = []string{
	"@", "*@", "[]@", "map[string]@", "map[string][]*@", "[2]@", "(@)", "chan @", "gen[@]", "gen2[int, @]", "map[@]int",
	"struct {\n\t\tG @ `json:\"g\"`\n\t}", "[]struct {\n\t\tG *@ `json:\"g\"`\n\t}",
}

// H_C28_styles: a field that refers to a type of another package in every way (8 ways to import it, 13 shapes), alone or next to a reference to a third package, with no filter, the filter of
// the CRD or of the deepcopy generator or both, with a JSON tag, another tag or none, in the first or second file of its package.
func H_C28_styles() {
	st := styles[sym.Choose("style", len(styles))]
	shape := shapes[sym.Choose("shape", len(shapes))]
	fs, needsTag := filters(sym.Choose("filter", 4))
	tag, hasTag := "", false
	switch sym.Choose("tag", 4) {
	case 1:
		tag, hasTag = " `json:\"f\"`", true
	case 2:
		tag = " `yaml:\"f\"`"
	case 3:
		tag, hasTag = " \"yaml:\\\"g\\\" json:\\\"f,omitempty\\\"\"", true
	}
	// another reference in the same file
	also, also2 := "", ""
	other := sym.Choose("also", 2) == 1
	if other {
		also, also2 = "import also \"x.org/other\"\n", "\tG []also.O `json:\"g\"`\n"
	}
	src := "package r\n\n" + also + st.clause + "\n\ntype R struct {\n\tF " + strings.Replace(shape, "@", st.ref, 1) + tag + "\n" + also2 + "}\n"
	rest := "type gen[P any] struct {\n\tP P `json:\"p\"`\n}\n\ntype gen2[P, Q any] struct {\n\tP P `json:\"p\"`\n\tQ Q `json:\"q\"`\n}\n"
	r := &vload.Pkg{Path: "x.org/r", Name: "r", Imports: []string{"x.org/dir-x", "x.org/other"}}
	switch sym.Choose("files", 3) {
	case 0:
		r.Files = []vload.File{{Name: "a.go", Src: src + "\n" + rest}}
	case 1:
		r.Files = []vload.File{{Name: "a.go", Src: src}, {Name: "b.go", Src: "package r\n\n" + rest}}
	case 2:
		// the same names mean other packages in the other file
		r.Files = []vload.File{{Name: "b.go", Src: src}}
		f := vload.File{Name: "a.go", Src: "package r\n\nimport (\n\tal \"x.org/other\"\n\txpkg \"x.org/other\"\n)\n\nvar _ al.O\nvar _ xpkg.O\n\n" + rest}
		if n := sym.Choose("first", 2); n == 0 {
			r.Files = append(r.Files, f)
		} else {
			r.Files = append([]vload.File{f}, r.Files...)
		}
	}
	root := vload.MustLoad([]*vload.Pkg{r,
		vload.One("x.org/dir-x", "xpkg", "package xpkg\n\ntype T struct {\n\tV int `json:\"v\"`\n}\n"),
		vload.One("x.org/other", "other", "package other\n\ntype O struct {\n\tV int `json:\"v\"`\n}\n\ntype T int\n"),
	}, "x.org/r")
	(&loader.TypeChecker{NodeFilters: fs}).Check(root)
	x := root.Imports()["x.org/dir-x"]
	sym.Assert(checked(root), "a package that is checked has its types")
	o, _ := kinds(root)
	sym.Assert(o == 0, "no error for a package without mistakes")
	dot := strings.Contains(st.clause, "\t. ") || strings.Contains(st.clause, "import . ")
	if hasTag || !needsTag {
		sym.Assert(checked(x), "a package that a field refers to is checked")
		sym.Assert(resolved(root.TypesInfo.TypeOf(field(root, "R", "F")), "x.org/dir-x", map[types.Type]bool{}), "the type of the field is the one it names")
		_, t := kinds(root)
		sym.Assert(t == 0 || strings.Contains(st.clause, "other") || len(r.Files) == 2, "and there is no type error")
	} else if !dot {
		sym.Assert(!checked(x), "a package that only ignored fields refer to is not checked")
	}
	sym.Assert(checked(root.Imports()["x.org/other"]) == other, "a package is checked exactly if a type refers to it")
	if other {
		o := root.TypesInfo.TypeOf(field(root, "R", "G")).(*types.Slice).Elem()
		sym.Assert(o == root.Imports()["x.org/other"].Types.Scope().Lookup("O").Type(), "the type of the field is the one it names")
	}
	sym.Reach("styles")
}

// H_C28_embed: a reference in an embedded field, an alias, a derived type, a type in a function (which nobody looks at), in an interface, in
// a function type, behind two aliases in another package, in the length of an array, in an unexported type, in a group of types.
func H_C28_embed() {
	fs, needsTag := filters(sym.Choose("filter", 4))
	none := fs == nil
	form := sym.Choose("form", 11)
	decl := ""
	name := "R"
	fieldName := "F"
	want := true   // x is needed
	target := true // and R's field resolves to x.T
	switch form {
	case 0:
		decl = "type R struct {\n\tx.T `json:\",inline\"`\n}\n"
		fieldName = ""
	case 1:
		decl = "type R = x.T\n"
	case 2:
		decl = "type R x.T\n"
		target = false
	case 3:
		decl = "func f() {\n\ttype R struct {\n\t\tF x.T `json:\"f\"`\n\t}\n}\n"
		want, target = false, false
	case 4:
		decl = "type R interface {\n\tF() x.T\n}\n"
		want, target = none, false
	case 5:
		decl = "type R struct {\n\tF func(x.T) `json:\"f\"`\n}\n"
		want, target = !needsTag, false
	case 6:
		decl = "type R struct {\n\tF y.B `json:\"f\"`\n}\n"
	case 7:
		decl = "type R struct {\n\tF [x.N]int `json:\"f\"`\n}\n"
		target = false
	case 8:
		decl = "type r struct {\n\tF x.T `json:\"f\"`\n}\n"
		name = "r"
	case 9:
		decl = "type (\n\tQ int\n\tR struct {\n\t\tF []x.T `json:\"f\"`\n\t}\n\tS string\n)\n"
	case 10:
		decl = "type R struct {\n\tF Q `json:\"f\"`\n}\n\ntype Q []map[string]x.T\n"
	}
	imp := "import \"x.org/x\"\n\nvar _ x.T\n\n"
	if form == 6 {
		imp = "import \"x.org/y\"\n\n"
	}
	root := vload.MustLoad([]*vload.Pkg{
		vload.One("x.org/r", "r", "package r\n\n"+imp+decl, "x.org/x", "x.org/y"),
		vload.One("x.org/x", "x", "package x\n\nconst N = 3\n\ntype T struct {\n\tV int `json:\"v\"`\n}\n"),
		vload.One("x.org/y", "y", "package y\n\nimport z \"x.org/x\"\n\ntype A = z.T\n\ntype B = A\n", "x.org/x"),
	}, "x.org/r")
	(&loader.TypeChecker{NodeFilters: fs}).Check(root)
	x := root.Imports()["x.org/x"]
	sym.Assert(checked(x) == want, "a package is checked exactly if a type that matters refers to it")
	o, _ := kinds(root)
	sym.Assert(o == 0, "no error for a package without mistakes")
	if target {
		sym.Assert(resolved(root.TypesInfo.TypeOf(field(root, name, fieldName)), "x.org/x", map[types.Type]bool{}), "the type is the one it names")
	}
	if form == 2 {
		sym.Assert(root.Types.Scope().Lookup("R").Type().Underlying() == x.Types.Scope().Lookup("T").Type().Underlying(), "a derived type has the type it derives from")
	}
	if form == 7 {
		a, ok := root.TypesInfo.TypeOf(field(root, "R", "F")).(*types.Array)
		sym.Assert(ok && a.Len() == 3, "the length of an array is known")
	}
	sym.Reach("embed")
}

var paths = []string{"x.org/a", "x.org/b", "x.org/c", "x.org/d"}

// H_C28_graph: 4 packages; each imports every later one, and refers to it in a field with a JSON tag, one without, or not at all (every
// combination for 3 packages, and for 4 with tagged or no references); the first and then another one are checked, with the CRD filter: the packages
// that have types are exactly those that fields with tags lead to, and all these fields have their types.
func H_C28_graph() {
	n := 3 + sym.Choose("n", 2)
	kind := make([][]int, n)
	var pkgs []*vload.Pkg
	for i := 0; i < n; i++ {
		kind[i] = make([]int, n)
		name := paths[i][6:]
		imports, fields := "", ""
		p := &vload.Pkg{Path: paths[i], Name: name}
		for j := i + 1; j < n; j++ {
			if n == 3 {
				kind[i][j] = sym.Choose("ref", 3)
			} else {
				kind[i][j] = sym.Choose("ref", 2)
			}
			o := paths[j][6:]
			p.Imports = append(p.Imports, paths[j])
			imports += "import \"" + paths[j] + "\"\n"
			switch kind[i][j] {
			case 1:
				fields += "\tF" + o + " " + o + ".T `json:\"f\"`\n"
			case 2:
				fields += "\tF" + o + " " + o + ".T\n"
			default:
				imports += "\nvar V" + o + " " + o + ".T\n\n"
				imports = strings.Replace(imports, "\nvar", "\nvar", 1)
			}
		}
		vars := ""
		lines := strings.Split(imports, "\n")
		imports = ""
		for _, l := range lines {
			if strings.HasPrefix(l, "var") {
				vars += l + "\n"
			} else if l != "" {
				imports += l + "\n"
			}
		}
		p.Files = []vload.File{{Name: "t.go", Src: "package " + name + "\n\n" + imports + vars + "\ntype T struct {\n\tV int `json:\"v\"`\n" + fields + "}\n"}}
		pkgs = append(pkgs, p)
	}
	rev := sym.Choose("order", 2)
	second := 1 + sym.Choose("second", n-1)
	roots, err := vload.Load(pkgs, paths[:n]...)
	if err != nil || len(roots) != n {
		panic("load")
	}
	fs, _ := filters(1)
	c := &loader.TypeChecker{NodeFilters: fs}
	first := 0
	if rev == 1 {
		first, second = second, first
	}
	c.Check(roots[first])
	c.Check(roots[second])
	need := make([]bool, n)
	need[first], need[second] = true, true
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if need[i] && kind[i][j] == 1 {
				need[j] = true
			}
		}
	}
	for i := 0; i < n; i++ {
		sym.Assert(checked(roots[i]) == need[i], "exactly the packages that fields with tags lead to are checked")
		if !need[i] {
			continue
		}
		o, _ := kinds(roots[i])
		sym.Assert(o == 0, "no error for a package without mistakes")
		for j := i + 1; j < n; j++ {
			if kind[i][j] == 1 {
				t := roots[i].TypesInfo.TypeOf(field(roots[i], "T", "F"+paths[j][6:]))
				sym.Assert(t == roots[j].Types.Scope().Lookup("T").Type(), "a type is one and the same wherever it is used")
			}
		}
	}
	sym.Reach("graph")
}

// hasJSON: the text of a struct tag (in the convention of package reflect: key:"value" pairs separated by spaces) has the key `json`.
func hasJSON(tag string) bool {
	i := 0
	for {
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		k := i
		for i < len(tag) && tag[i] > ' ' && tag[i] != ':' && tag[i] != '"' && tag[i] != 0x7f {
			i++
		}
		if i == k || i+1 >= len(tag) || tag[i] != ':' || tag[i+1] != '"' {
			return false
		}
		key := tag[k:i]
		i += 2
		bad := false
		for i < len(tag) && tag[i] != '"' {
			if tag[i] == '\\' {
				i++
				// the only escapes over the alphabet used are \" \\ \n
				if i < len(tag) && tag[i] != '"' && tag[i] != '\\' && tag[i] != 'n' {
					bad = true
				}
			}
			i++
		}
		if i >= len(tag) {
			return false
		}
		i++
		if sym.StrEq(key, "json") {
			return !bad
		}
	}
}

// H_C28_tag: a field with every tag made of one of 6 beginnings, up to 4 (6) arbitrary characters of `json:"\`, space and comma, and one of 4 ends:
// the CRD filter follows the reference in the field exactly if the tag has the key json.
func H_C28_tag() {
	text := []string{"", "x:\"y\" ", "x:\"a\\\"b\" ", "x ", "js", "json:\"\\"}[sym.Choose("begin", 6)] +
		sym.StringOf("text", 0, 4+2*sym.Tier(), "json:\"\\ ,") +
		[]string{"", "json:\"f\"", "son:\"\"", "\" json:\"-\""}[sym.Choose("end", 4)]
	root := vload.MustLoad([]*vload.Pkg{
		vload.One("x.org/r", "r", "package r\n\nimport \"x.org/x\"\n\ntype R struct {\n\tF x.T `tag`\n}\n", "x.org/x"),
		vload.One("x.org/x", "x", "package x\n\ntype T struct {\n\tV int `json:\"v\"`\n}\n"),
	}, "x.org/r")
	root.NeedSyntax()
	ts := root.Syntax[0].Decls[1].(*ast.GenDecl).Specs[0].(*ast.TypeSpec)
	ts.Type.(*ast.StructType).Fields.List[0].Tag.Value = "`" + text + "`"
	fs, _ := filters(1)
	for _, f := range fs {
		sym.Assert(f(ts.Type.(*ast.StructType).Fields.List[0]) == hasJSON(text), "a field matters exactly if it has a JSON tag")
	}
	if sym.Choose("check", 2) == 0 {
		sym.Reach("tag")
		return
	}
	(&loader.TypeChecker{NodeFilters: fs}).Check(root)
	sym.Assert(checked(root.Imports()["x.org/x"]) == hasJSON(text), "a reference is followed exactly if its field has a JSON tag")
	sym.Reach("tag")
}

// H_C28_names: two imports under arbitrary different names of up to 2 letters or under the names of their packages, and a reference with an
// arbitrary qualifier of up to 2 letters: it means the import of that name and only that; if there is none, that is an error.
func H_C28_names() {
	root := vload.MustLoad([]*vload.Pkg{
		vload.One("x.org/r", "r", "package r\n\nimport n1 \"x.org/x\"\nimport n2 \"x.org/y\"\n\ntype R struct {\n\tF n3.T `json:\"f\"`\n}\n", "x.org/x", "x.org/y"),
		vload.One("x.org/x", "ab", "package ab\n\ntype T struct {\n\tV int `json:\"v\"`\n}\n"),
		vload.One("x.org/y", "a", "package a\n\ntype T struct {\n\tV int `json:\"v\"`\n}\n"),
	}, "x.org/r")
	root.NeedSyntax()
	f := root.Syntax[0]
	names := []string{"ab", "a"}
	for i, im := range f.Imports {
		if sym.Choose("named", 2) == 0 {
			im.Name = nil
			continue
		}
		names[i] = sym.StringOf("name", 1, 2, "abx")
		im.Name.Name = names[i]
	}
	sym.Assume(!sym.StrEq(names[0], names[1]))
	ref := sym.StringOf("ref", 1, 2, "abx")
	fl := f.Decls[2].(*ast.GenDecl).Specs[0].(*ast.TypeSpec).Type.(*ast.StructType).Fields.List[0]
	fl.Type.(*ast.SelectorExpr).X.(*ast.Ident).Name = ref
	fs, _ := filters(1 + sym.Choose("filter", 3))
	(&loader.TypeChecker{NodeFilters: fs}).Check(root)
	o, _ := kinds(root)
	x, y := root.Imports()["x.org/x"], root.Imports()["x.org/y"]
	isX, isY := sym.StrEq(ref, names[0]), sym.StrEq(ref, names[1])
	sym.Assert(checked(x) == isX, "a reference means the import of that name")
	sym.Assert(checked(y) == isY, "a reference means the import of that name")
	sym.Assert((o > 0) == !(isX || isY), "a reference to what is not imported, and only that, is an error")
	switch {
	case isX:
		sym.Assert(resolved(root.TypesInfo.TypeOf(fl.Type), "x.org/x", map[types.Type]bool{}), "the type of the field is the one it names")
	case isY:
		sym.Assert(resolved(root.TypesInfo.TypeOf(fl.Type), "x.org/y", map[types.Type]bool{}), "the type of the field is the one it names")
	}
	sym.Reach("names")
}
