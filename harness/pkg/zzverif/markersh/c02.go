package markersh

import (
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
func digit(c byte) bool { return c >= '0' && c <= '9' }

type twoInts struct {
	I int
	J *int
}

var defTwo *markers.Definition

func Setup_C02() {
	defTwo = must(markers.MakeDefinition("a:m", markers.DescribesField, twoInts{}))
}

const (
	reject = iota
	accept
	either
)

// refInt reads what the documentation calls an integer at t[i:]: digits with an optional sign. Forms that Go has and the documentation
// does not mention (leading zeros, 0x1, 1_0) may go either way.
func refInt(t string, i int) (end int, val int64, verdict int) {
	for i < len(t) && space(t[i]) {
		i++
	}
	neg := false
	if i < len(t) && t[i] == '-' {
		neg = true
		i++
		for i < len(t) && space(t[i]) {
			i++
			verdict = either
		}
		if verdict == either && (i >= len(t) || !digit(t[i])) {
			return i, 0, reject
		}
	}
	start := i
	for i < len(t) && digit(t[i]) {
		val = val*10 + int64(t[i]-'0')
		i++
	}
	if i == start {
		return i, 0, reject
	}
	if i < len(t) && (t[i] == '_' || t[i] == 'x' || t[i] == 'X' || t[i] == 'b' || t[i] == 'B' || t[i] == 'o' || t[i] == 'O') {
		return i, 0, either
	}
	if neg {
		val = -val
	}
	v := accept
	if verdict == either || i-start > 1 && t[start] == '0' {
		v = either
	}
	for i < len(t) && space(t[i]) {
		i++
	}
	return i, val, v
}

// ascii is an arbitrary text of up to n bytes below 0x80.
func ascii(id string, n int) string {
	t := sym.String(id, n)
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] < 0x80)
	}
	return t
}

// text is an arbitrary text of up to wide bytes, or up to n bytes below 0x80.
func text(id string, wide, n int) string {
	if sym.Choose(id+".ascii", 2) == 0 {
		return sym.String(id, wide)
	}
	return ascii(id, n)
}

// H_C02_int: an integer argument: every text of up to 2 bytes, or of up to 4 (thorough: 5) ASCII characters.
func H_C02_int() {
	t := text("t", 2, 4+sym.Tier())
	v, err := defInt.Parse("+a:m:v=" + t)
	end, want, verdict := refInt(t, 0)
	if verdict == either {
		return
	}
	if verdict == accept && end < len(t) {
		verdict = reject
	}
	sym.Assert((err == nil) == (verdict == accept), "an integer argument is accepted exactly when it is an integer with nothing left over")
	if err == nil {
		sym.Assert(int64(v.(int)) == want, "the integer is what was written")
	}
}

// H_C02_bool: a boolean argument: every text of up to 2 bytes, or of up to 4 (thorough: 5) ASCII characters, and "false" with one of its characters changed or one added.
func H_C02_bool() {
	t := ""
	if sym.Choose("edit", 2) == 1 {
		c := ascii("c", 1)
		k := sym.Choose("at", 6)
		if k < 5 && sym.Choose("replace", 2) == 1 {
			t = "false"[:k] + c + "false"[k+1:]
		} else {
			t = "false"[:k] + c + "false"[k:]
		}
	} else {
		t = text("t", 2, 4+sym.Tier())
	}
	v, err := defBool.Parse("+a:m:v=" + t)
	i, j := 0, len(t)
	for i < j && space(t[i]) {
		i++
	}
	for j > i && space(t[j-1]) {
		j--
	}
	w := t[i:j]
	if err == nil {
		sym.Assert(sym.StrEq(w, "true") || sym.StrEq(w, "false"), "only true and false are booleans")
		sym.Assert(v.(bool) == (w == "true"), "the boolean is what was written")
	} else {
		sym.Assert(!sym.StrEq(w, "true") && !sym.StrEq(w, "false"), "true and false are booleans")
	}
}

// H_C02_struct: a marker with one required and one optional integer argument: every text of up to 6 (thorough: 7) bytes after the name,
// of letters i, j, x, digits, signs, blanks and delimiters.
func H_C02_struct() {
	t := sym.StringOf("t", 0, 6+sym.Tier(), "ijx=,-17 ;:\"")
	for i := 0; i < len(t) && t[i] != '='; i++ {
		sym.Assume(t[i] != ':')
	}
	structText(t)
}

func structText(t string) {
	if len(t) > 0 {
		sym.Assume(!space(t[len(t)-1]))
	}
	hasEq := false
	for i := 0; i < len(t); i++ {
		if t[i] == '=' {
			hasEq = true
		}
	}
	// without '=' the whole text is a name
	sym.Assume(hasEq)
	val, err := defTwo.Parse("+a:m:" + t)
	got := val.(twoInts)
	var iv, jv int64
	var iset, jset bool
	verdict := reject
	for p := 0; ; {
		for p < len(t) && space(t[p]) {
			p++
		}
		if p >= len(t) || t[p] != 'i' && t[p] != 'j' {
			break
		}
		name := t[p]
		p++
		for p < len(t) && space(t[p]) {
			p++
		}
		if p >= len(t) || t[p] != '=' {
			break
		}
		end, v, ok := refInt(t, p+1)
		if ok == either {
			verdict = either
		}
		if ok != accept {
			break
		}
		if name == 'i' {
			iv, iset = v, true
		} else {
			jv, jset = v, true
		}
		p = end
		if p == len(t) {
			verdict = accept
			break
		}
		if t[p] != ',' {
			break
		}
		p++
	}
	if verdict == either {
		return
	}
	if !iset {
		verdict = reject
	}
	sym.Assert((err == nil) == (verdict == accept), "arguments are accepted exactly when all are known, of their type, separated by commas, with nothing left over and none missing")
	if err == nil {
		sym.Assert(int64(got.I) == iv, "i is what was written")
		sym.Assert((got.J != nil) == jset, "an optional argument is set exactly when it is given")
		if got.J != nil {
			sym.Assert(int64(*got.J) == jv, "j is what was written")
		}
	}
}

// H_C02_struct_edit: well-formed arguments with any one byte replaced by any other byte, or any one byte dropped or inserted.
func H_C02_struct_edit() {
	base := []string{"i=1,j=2", "j=-3,i=40", "i=5", "j=2"}[sym.Choose("base", 4)]
	k := sym.Choose("at", len(base)+1)
	t := base[:k]
	switch sym.Choose("edit", 3) {
	case 0:
		sym.Assume(k < len(base))
		t += string([]byte{sym.Byte("c")}) + base[k+1:]
	case 1:
		sym.Assume(k < len(base))
		t += base[k+1:]
	case 2:
		t += string([]byte{sym.Byte("c")}) + base[k:]
	}
	for i := 0; i < len(t) && t[i] != '='; i++ {
		sym.Assume(t[i] != ':')
	}
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] < 0x80 && t[i] != 0)
	}
	structText(t)
}

type required struct {
	S  string
	I  int
	B  bool
	L  []string
	M  map[string]string
	A  interface{}
	O  *string
	O2 string `marker:",optional"`
	N  int    `marker:"renamed"`
}

// H_C02_missing: any subset of seven required and two optional arguments: an error exactly when a required one is missing.
func H_C02_missing() {
	d := must(markers.MakeDefinition("a:m", markers.DescribesField, required{}))
	parts := []string{"s=x", "i=1", "b=true", "l=x;y", "m={k: v}", "a=3", "renamed=2", "o=z", "o2=y"}
	text := ""
	var has [9]bool
	for i, p := range parts {
		if sym.Choose("has", 2) == 1 {
			has[i] = true
			if text != "" {
				text += ","
			}
			text += p
		}
	}
	if text != "" {
		text = ":" + text
	}
	v, err := d.Parse("+a:m" + text)
	all := has[0] && has[1] && has[2] && has[3] && has[4] && has[5] && has[6]
	sym.Assert((err == nil) == all, "an error exactly when a required argument is missing")
	if err == nil {
		r := v.(required)
		sym.Assert((r.O != nil) == has[7] && (r.O2 == "y") == has[8], "an absent optional argument leaves its field untouched")
		sym.Assert(r.O == nil || *r.O == "z", "a present optional argument is set")
		sym.Assert(r.S == "x" && r.I == 1 && r.B && len(r.L) == 2 && r.M["k"] == "v" && r.A == interface{}(3) && r.N == 2, "every argument is what was written")
	}
}

// H_C02_missing_anon: a marker whose single value is required, without any value.
func H_C02_missing_anon() {
	defs := []*markers.Definition{defStr, defNamed, defInt, defI32, defBool, defNum, defList, defMap, defRaw, defAnyWrap}
	d := defs[sym.Choose("def", len(defs))]
	text := []string{"+a:m:v", "+a:m:v="}[sym.Choose("form", 2)]
	_, err := d.Parse(text)
	sym.Assert(err != nil, "a missing required value is an error")
	_, err = defPtr.Parse("+a:m:v")
	sym.Assert(err == nil, "a missing optional value is not an error")
}

// H_C02_unknown: an argument of any name of up to 3 letters that the marker does not have, before or after the known ones.
func H_C02_unknown() {
	n := sym.StringOf("n", 1, 3, "abijsxIJ")
	sym.Assume(!sym.StrEq(n, "i") && !sym.StrEq(n, "j"))
	form := sym.Choose("form", 3)
	text := []string{"+a:m:" + n + "=1,i=1", "+a:m:i=1," + n + "=1", "+a:m:i=1," + n + "=1,j=2"}[form]
	_, err := defTwo.Parse(text)
	sym.Assert(err != nil, "an unknown argument is an error")
	_, err = defEmpty.Parse("+a:m:v=" + n)
	sym.Assert(err != nil, "arguments to a marker that takes none are an error")
}

// H_C02_leftover: text of up to 2 ASCII characters after a complete argument that is neither a separator nor blank.
func H_C02_leftover() {
	t := ascii("t", 2)
	sym.Assume(len(t) > 0)
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] > ' ' && t[i] != ',' && t[i] != ';' && t[i] != 0x7f)
	}
	forms := []string{"str=\"x\"", "str=`x`", "list={a}", "ints={1}", "map={k:v}", "ll={{1}}", "any=\"x\"", "any={k:v}"}
	f := forms[sym.Choose("form", len(forms))]
	_, err := defFull.Parse("+a:m:" + f + t)
	sym.Assert(err != nil, "text left over after an argument is an error")
	_, err = defFull.Parse("+a:m:" + f + t + ",int=1")
	sym.Assert(err != nil, "text left over between arguments is an error")
}

// H_C02_unterminated: quotes, lists and maps that are cut off anywhere.
func H_C02_unterminated() {
	forms := []string{"str=\"abc\"", "str=`abc`", "list={a,b}", "list={a,\"b\"}", "ints={1,2}", "map={k:v}", "map={k:v,l:w}", "ll={{1,2},{3}}", "any={a,b}", "any={k:v}", "any={k:{1,2}}", "any=\"x\""}
	f := forms[sym.Choose("form", len(forms))]
	cut := sym.Choose("cut", 15)
	sym.Assume(cut < len(f) && strings.Contains(f[:cut], "="))
	if cut < len(f) && f[cut-1] == '=' {
		return // an empty value at the end of the text
	}
	_, err := defFull.Parse("+a:m:" + f[:cut])
	sym.Assert(err != nil, "an argument that is cut off is an error")
	_, err = defFull.Parse("+a:m:int=3," + f[:cut])
	sym.Assert(err != nil, "an argument that is cut off is an error")
}

// H_C02_wrongtype: values that are not of the argument's type.
func H_C02_wrongtype() {
	arg := []string{"int", "i32", "pi", "bool", "pb", "num", "ints", "ll", "map", "mint", "ml"}
	a := arg[sym.Choose("arg", len(arg))]
	c := sym.StringOf("c", 1, 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_!#$%&'()*/<>?@[]^|~")
	v := []string{c, "\"1" + c + "\"", "`true`", "{" + c + "}", "1" + c}[sym.Choose("form", 5)]
	_, err := defFull.Parse("+a:m:" + a + "=" + v + ",str=x")
	if a == "num" || a == "int" || a == "pi" || a == "i32" {
		sym.Assume(c != "_" && c != "e" && c != "E" && c != "p" && c != "P")
	}
	sym.Assert(err != nil, "a value that is not of the argument's type is an error")
}

// H_C02_total: every text of up to 1 (thorough: 2) bytes or up to 3 ASCII characters as the value of an argument of any type and of lists and maps of any type:
// parsing ends without a panic.
func H_C02_total() {
	defs := []*markers.Definition{defAnyWrap, defMap, defList, defStr, defNum, defPtr}
	d := defs[sym.Choose("def", len(defs))]
	t := text("t", 1+sym.Tier(), 3)
	_, err := d.Parse("+a:m:v=" + t)
	sym.Observe("ok", map[bool]string{true: "yes", false: "no"}[err == nil])
}

// H_C02_any: every text of up to 5 (thorough: 6) delimiters, quotes, letters and digits as a value of any type.
func H_C02_any() {
	t := sym.StringOf("t", 1, 4+sym.Tier(), "{},;:\"`-1.at ")
	v, err := defAnyWrap.Parse("+a:m:v=" + t)
	if err == nil {
		sym.Assert(v.(anyWrap).Value != nil, "an accepted value is set")
	}
}

var shipped []*markers.Definition

func Setup_C02_shipped() {
	reg := &markers.Registry{}
	gens := []genall.Generator{crd.Generator{}, rbac.Generator{}, webhook.Generator{}, deepcopy.Generator{}}
	for _, g := range gens {
		if err := g.RegisterMarkers(reg); err != nil {
			panic(err)
		}
	}
	shipped = reg.AllDefinitions()
	sort.SliceStable(shipped, func(i, j int) bool {
		if shipped[i].Name != shipped[j].Name {
			return shipped[i].Name < shipped[j].Name
		}
		return shipped[i].Target < shipped[j].Target
	})
}

// H_C02_shipped: every marker of the built-in generators with no value, and with every value of one byte or up to 2 ASCII characters, or
// a named argument with such a value: parsing ends without a panic.
func H_C02_shipped() {
	d := shipped[sym.Choose("def", len(shipped))]
	switch sym.Choose("form", 3) {
	case 0:
		d.Parse("+" + d.Name)
	case 1:
		t := text("t", 1, 1+sym.Tier())
		d.Parse("+" + d.Name + "=" + t)
	case 2:
		t := ascii("t", 1+sym.Tier())
		args := make([]string, 0, len(d.Fields))
		for a := range d.Fields {
			args = append(args, a)
		}
		sort.Strings(args)
		if len(args) == 0 {
			return
		}
		a := args[sym.Choose("arg", len(args))]
		d.Parse("+" + d.Name + ":" + a + "=" + t)
	}
}
