// Package markersh checks marker parsing, lookup and collection (C01..C03).
package markersh

import (
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// named is a named string type.
type named string

// full has one argument of every type; all optional, so that any subset can be written.
type full struct {
	Str   string              `marker:",optional"`
	Other named               `marker:"renamed,optional"`
	Ptr   *string             `marker:",optional"`
	Int   int                 `marker:",optional"`
	I32   int32               `marker:"i32,optional"`
	PI    *int                `marker:"pi"`
	Bool  bool                `marker:",optional"`
	PB    *bool               `marker:"pb"`
	Num   float64             `marker:",optional"`
	List  []string            `marker:",optional"`
	PList *[]string           `marker:"plist"`
	Ints  []int               `marker:",optional"`
	LL    [][]int             `marker:"ll,optional"`
	LS    [][]string          `marker:"ls,optional"`
	Map   map[string]string   `marker:",optional"`
	MInt  map[string]int      `marker:"mint,optional"`
	ML    map[string][]string `marker:"ml,optional"`
	Any   interface{}         `marker:",optional"`
}

type anyWrap struct{ Value interface{} }

var defFull, defStr, defNamed, defInt, defI32, defBool, defNum, defList, defMap, defAny, defRaw, defEmpty, defAnyWrap, defPtr *markers.Definition

func must(d *markers.Definition, err error) *markers.Definition {
	if err != nil {
		panic(err)
	}
	return d
}

func Setup() {
	mk := func(name string, v interface{}) *markers.Definition {
		return must(markers.MakeDefinition(name, markers.DescribesField, v))
	}
	defFull = mk("a:m", full{})
	defStr = mk("a:m:v", "")
	defNamed = mk("a:m:v", named(""))
	defInt = mk("a:m:v", 0)
	defI32 = mk("a:m:v", int32(0))
	defBool = mk("a:m:v", false)
	defNum = mk("a:m:v", float64(0))
	defList = mk("a:m:v", []string{})
	defMap = mk("a:m:v", map[string]string{})
	defRaw = mk("a:m:v", markers.RawArguments(nil))
	defPtr = mk("a:m:v", (*int)(nil))
	defEmpty = mk("a:m:v", struct{}{})
	defAnyWrap = must(markers.MakeAnyTypeDefinition("a:m:v", markers.DescribesField, anyWrap{}))
}

func parseFull(text string) full {
	v, err := defFull.Parse(text)
	sym.Assert(err == nil, "a well-formed marker is accepted")
	f, ok := v.(full)
	sym.Assert(ok, "the value has the marker's type")
	return f
}

func parseOK(d *markers.Definition, text string) interface{} {
	v, err := d.Parse(text)
	sym.Assert(err == nil, "a well-formed marker is accepted")
	return v
}

func quote(s string) string {
	out := []byte{'"'}
	const hex = "0123456789abcdef"
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\t':
			out = append(out, '\\', 't')
		case c < 0x20 || c >= 0x7f:
			out = append(out, '\\', 'x', hex[c>>4], hex[c&15])
		default:
			out = append(out, c)
		}
	}
	return string(append(out, '"'))
}

const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
const rawable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_abcdefghijklmnopqrstuvwxyz{|}~"
const bareable = " !#$%&'()*+-./0123456789<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_abcdefghijklmnopqrstuvwxyz|~"
const bareEnds = "!#$%&'()*+-./0123456789<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_abcdefghijklmnopqrstuvwxyz|~"

// bare is an arbitrary unquoted string: printable, no delimiter or quote, no space at either end.
func bare(id string, max int) string {
	n := 1 + sym.Choose(id+".n", max)
	s := sym.StringOf(id+".0", 1, 1, bareEnds)
	for i := 1; i < n-1; i++ {
		s += sym.StringOf(fmt.Sprintf("%s.%d", id, i), 1, 1, bareable)
	}
	if n > 1 {
		s += sym.StringOf(fmt.Sprintf("%s.%d", id, n-1), 1, 1, bareEnds)
	}
	return s
}

// stringIn puts a written string into every place a string can stand and checks that exactly the value arrives there.
func stringIn(text, want string, contexts int) {
	stringsIn(text, want, sym.Choose("context", contexts))
}

// spaced is like stringIn, with whitespace on either or both sides of the written string.
func spaced(text, want string, contexts int) {
	context := sym.Choose("context", contexts)
	switch sym.Choose("space", 4) {
	case 0:
		text = " " + text
	case 1:
		text += " "
	case 2:
		text = "\t " + text + "  "
	case 3:
		text += "\t"
	}
	stringsIn(text, want, context)
}

func stringsIn(text, want string, context int) {
	eq := func(got string) { sym.Assert(sym.StrEq(got, want), "the string is what was written") }
	switch context {
	case 0:
		v := parseOK(defStr, "+a:m:v="+strings.TrimRight(text, " \t"))
		s, ok := v.(string)
		sym.Assert(ok, "string value")
		eq(s)
	case 1:
		f := parseFull("+a:m:str=" + text + ",int=7")
		eq(f.Str)
		sym.Assert(f.Int == 7 && f.Other == "" && f.Ptr == nil, "the other arguments are what was written")
	case 2:
		f := parseFull("+a:m:int=7,renamed=" + strings.TrimRight(text, " \t"))
		eq(string(f.Other))
		sym.Assert(f.Int == 7 && f.Str == "" && f.Ptr == nil, "the other arguments are what was written")
	case 3:
		f := parseFull("+a:m:ptr=" + text + ",str=x")
		sym.Assert(f.Ptr != nil, "an optional argument that is given is set")
		eq(*f.Ptr)
		sym.Assert(f.Str == "x", "the other arguments are what was written")
	case 4:
		f := parseFull("+a:m:list=q;" + text + ";r,str=x")
		sym.Assert(len(f.List) == 3, "the list has as many items as written")
		eq(f.List[1])
		sym.Assert(f.List[0] == "q" && f.List[2] == "r" && f.Str == "x", "the other items are what was written")
	case 5:
		f := parseFull("+a:m:list={" + text + ", r},str=x")
		sym.Assert(len(f.List) == 2, "the list has as many items as written")
		eq(f.List[0])
		sym.Assert(f.List[1] == "r" && f.Str == "x", "the other items are what was written")
	case 6:
		f := parseFull("+a:m:map={" + text + ": r, \"other key\": s},str=x")
		sym.Assert(f.Str == "x", "the other arguments are what was written")
		if want == "other key" {
			return
		}
		sym.Assert(len(f.Map) == 2, "the map has as many entries as written")
		v, ok := f.Map[want]
		sym.Assert(ok && v == "r" && f.Map["other key"] == "s", "the map entries are what was written")
	case 7:
		f := parseFull("+a:m:map={k: " + text + ", l: r},str=x")
		sym.Assert(len(f.Map) == 2 && f.Map["l"] == "r" && f.Str == "x", "the other entries are what was written")
		eq(f.Map["k"])
	case 8:
		f := parseFull("+a:m:ls={{q," + text + "},{r}},str=x")
		sym.Assert(len(f.LS) == 2 && len(f.LS[0]) == 2 && len(f.LS[1]) == 1, "the lists have as many items as written")
		eq(f.LS[0][1])
		sym.Assert(f.LS[0][0] == "q" && f.LS[1][0] == "r" && f.Str == "x", "the other items are what was written")
	case 9:
		f := parseFull("+a:m:ml={k: {" + text + ",r}, l: q;" + text + "},plist=" + strings.TrimRight(text, " \t"))
		sym.Assert(len(f.ML) == 2 && len(f.ML["k"]) == 2 && len(f.ML["l"]) == 2, "the map has as many entries as written")
		eq(f.ML["k"][0])
		eq(f.ML["l"][1])
		sym.Assert(f.ML["k"][1] == "r" && f.ML["l"][0] == "q", "the other items are what was written")
		sym.Assert(f.PList != nil && len(*f.PList) == 1, "an optional list that is given is set")
		eq((*f.PList)[0])
	case 10: // quoted only, from here on
		f := parseFull("+a:m:any=" + text + ",str=x")
		s, ok := f.Any.(string)
		sym.Assert(ok && f.Str == "x", "a quoted value of any type is a string")
		eq(s)
	case 11:
		v := parseOK(defAnyWrap, "+a:m:v={q,"+text+"}")
		l, ok := v.(anyWrap).Value.([]string)
		sym.Assert(ok && len(l) == 2 && l[0] == "q", "a list of quoted values is a list of strings")
		eq(l[1])
	case 12:
		v := parseOK(defAnyWrap, "+a:m:v={k: "+text+", l: 3}")
		m, ok := v.(anyWrap).Value.(map[string]interface{})
		sym.Assert(ok && len(m) == 2 && m["l"] == interface{}(3), "a map of any type has as many entries as written")
		s, ok := m["k"].(string)
		sym.Assert(ok, "a quoted value of any type is a string")
		eq(s)
	case 13:
		v := parseOK(defAnyWrap, "+a:m:v="+text+";q")
		l, ok := v.(anyWrap).Value.([]string)
		sym.Assert(ok && len(l) == 2 && l[1] == "q", "a list of quoted values is a list of strings")
		eq(l[0])
	}
}

const contextsBare, contextsQuoted = 10, 14

// H_C01_quoted: double-quoted strings of up to 2 (thorough: 3) arbitrary bytes, written with escapes, in each of 14 places.
func H_C01_quoted() {
	s := sym.String("s", 2+sym.Tier())
	stringIn(quote(s), s, contextsQuoted)
}

// H_C01_raw: back-quoted strings of up to 3 (thorough: 4) printable bytes, in each of 14 places.
func H_C01_raw() {
	s := sym.StringOf("s", 0, 3+sym.Tier(), rawable)
	stringIn("`"+s+"`", s, contextsQuoted)
}

// H_C01_bare: unquoted strings of up to 3 (thorough: 4) printable bytes without quotes and delimiters, in each of 10 places.
func H_C01_bare() {
	s := bare("s", 3+sym.Tier())
	stringIn(s, s, contextsBare)
}

// H_C01_spaces: quoted and unquoted strings of up to 3 bytes with 4 kinds of whitespace around them, in every place.
func H_C01_spaces() {
	switch sym.Choose("form", 3) {
	case 0:
		s := sym.StringOf("s", 0, 1+sym.Tier(), printable)
		spaced(quote(s), s, contextsQuoted)
	case 1:
		s := sym.StringOf("s", 0, 1+sym.Tier(), rawable)
		spaced("`"+s+"`", s, contextsQuoted)
	case 2:
		s := bare("s", 3)
		spaced(s, s, contextsBare)
	}
}

// H_C01_twobytes: quoted and unquoted strings that contain any two-byte UTF-8 character.
func H_C01_twobytes() {
	a, b := sym.Byte("a"), sym.Byte("b")
	sym.Assume(a >= 0xc2 && a <= 0xdf && b >= 0x80 && b <= 0xbf)
	s := "x" + string([]byte{a, b}) + "y"
	switch sym.Choose("form", 3) {
	case 0:
		stringIn("\""+s+"\"", s, contextsQuoted)
	case 1:
		stringIn("`"+s+"`", s, contextsQuoted)
	case 2:
		stringIn(s, s, contextsBare)
	}
}

// number is a decimal integer of n digits, as text and as a value (n < 20).
func number(id string, n int) (string, int64) {
	s := sym.StringOf(id, n, n, "0123456789")
	if n > 1 {
		sym.Assume(s[0] != '0')
	}
	var v int64
	for i := 0; i < n; i++ {
		v = v*10 + int64(s[i]-'0')
	}
	if sym.Choose(id+".neg", 2) == 1 {
		return "-" + s, -v
	}
	return s, v
}

// H_C01_int: integers of 1 to 4 and of 18 digits, with either sign, in each of 10 places.
func H_C01_int() {
	n := 1 + sym.Choose("digits", 5)
	if n == 5 {
		n = 18
	}
	text, want := number("n", n)
	eq := func(got int) { sym.Assert(int64(got) == want, "the integer is what was written") }
	switch sym.Choose("context", 10) {
	case 0:
		eq(parseOK(defInt, "+a:m:v="+text).(int))
	case 1:
		f := parseFull("+a:m:int=" + text + ",str=x")
		eq(f.Int)
		sym.Assert(f.Str == "x" && f.PI == nil, "the other arguments are what was written")
	case 2:
		f := parseFull("+a:m:str=x,pi=" + text)
		sym.Assert(f.Str == "x" && f.Int == 0 && f.PI != nil, "the other arguments are what was written")
		eq(*f.PI)
	case 3:
		f := parseFull("+a:m:ints=1;" + text + ";2")
		sym.Assert(len(f.Ints) == 3 && f.Ints[0] == 1 && f.Ints[2] == 2, "the list is what was written")
		eq(f.Ints[1])
	case 4:
		f := parseFull("+a:m:ints={1, " + text + ", 2}")
		sym.Assert(len(f.Ints) == 3 && f.Ints[0] == 1 && f.Ints[2] == 2, "the list is what was written")
		eq(f.Ints[1])
	case 5:
		f := parseFull("+a:m:ll={{1," + text + "},{2}},str=x")
		sym.Assert(len(f.LL) == 2 && len(f.LL[0]) == 2 && len(f.LL[1]) == 1 && f.LL[0][0] == 1 && f.LL[1][0] == 2, "the list is what was written")
		eq(f.LL[0][1])
	case 6:
		f := parseFull("+a:m:mint={k: " + text + ", l: 2},str=x")
		sym.Assert(len(f.MInt) == 2 && f.MInt["l"] == 2 && f.Str == "x", "the map is what was written")
		eq(f.MInt["k"])
	case 7:
		f := parseFull("+a:m:any=" + text + ",str=x")
		i, ok := f.Any.(int)
		sym.Assert(ok && f.Str == "x", "an integer of any type is an int")
		eq(i)
	case 8:
		v := parseOK(defAnyWrap, "+a:m:v={k: "+text+", l: true}")
		m, ok := v.(anyWrap).Value.(map[string]interface{})
		sym.Assert(ok && len(m) == 2 && m["l"] == interface{}(true), "the map is what was written")
		i, ok := m["k"].(int)
		sym.Assert(ok, "an integer of any type is an int")
		eq(i)
	case 9:
		v := parseOK(defAnyWrap, "+a:m:v="+text+";7")
		l, ok := v.(anyWrap).Value.([]int)
		sym.Assert(ok && len(l) == 2 && l[1] == 7, "a list of integers is a list of ints")
		eq(l[0])
	}
}

// H_C01_intform: up to 3 (thorough: 4) characters an integer could be written with in any notation: if they are accepted as an
// integer, the value is their decimal value.
func H_C01_intform() {
	n := 1 + sym.Choose("n", 3+sym.Tier())
	text := sym.StringOf("n", n, n, "01789abfxoXOe_.-+ ")
	sym.Assume(sym.And(text[0] != ' ', text[n-1] != ' '))
	var got int64
	var err error
	switch sym.Choose("context", 4) {
	case 0:
		var v interface{}
		v, err = defInt.Parse("+a:m:v=" + text)
		got = int64(v.(int))
	case 1:
		var v interface{}
		v, err = defFull.Parse("+a:m:i32=" + text + ",str=x")
		got = int64(v.(full).I32)
	case 2:
		var v interface{}
		v, err = defFull.Parse("+a:m:ints=1;" + text)
		if l := v.(full).Ints; err == nil {
			sym.Assert(len(l) == 2 && l[0] == 1, "the list is what was written")
			got = int64(l[1])
		}
	case 3:
		var v interface{}
		v, err = defAnyWrap.Parse("+a:m:v=" + text)
		i, ok := v.(anyWrap).Value.(int)
		if !ok {
			return
		}
		got = int64(i)
	}
	if err != nil {
		return
	}
	digits := text
	neg := digits[0] == '-'
	if neg {
		digits = strings.TrimLeft(digits[1:], " ")
	}
	var want int64
	for i := 0; i < len(digits); i++ {
		sym.Assert(digits[i] >= '0' && digits[i] <= '9', "only decimal digits are an integer")
		want = want*10 + int64(digits[i]-'0')
	}
	if neg {
		want = -want
	}
	sym.Assert(got == want, "the integer is what was written")
}

// H_C01_int32: integers of 1, 9, 10, 11 and 18 digits for an argument of type int32: the value, or an error exactly when it does not fit.
func H_C01_int32() {
	n := []int{1, 9, 10, 11, 18}[sym.Choose("digits", 5)]
	text, want := number("n", n)
	fits := sym.And(want >= -1<<31, want <= 1<<31-1)
	var got int32
	var err error
	if sym.Choose("context", 2) == 0 {
		var v interface{}
		v, err = defI32.Parse("+a:m:v=" + text)
		got = v.(int32)
	} else {
		var v interface{}
		v, err = defFull.Parse("+a:m:i32=" + text + ",str=x")
		got = v.(full).I32
	}
	if err == nil {
		sym.Assert(int64(got) == want, "an integer is never changed into a different number")
	}
	sym.Assert(sym.Iff(err == nil, fits), "an integer that does not fit is an error")
}

// H_C01_bigint: integers of 19 digits: the value, or an error exactly when it does not fit.
func H_C01_bigint() {
	s := sym.StringOf("n", 19, 19, "0123456789")
	sym.Assume(s[0] != '0')
	var u uint64
	for i := 0; i < len(s); i++ {
		u = u*10 + uint64(s[i]-'0')
	}
	neg := sym.Choose("neg", 2) == 1
	text := s
	if neg {
		text = "-" + s
	}
	v, err := defInt.Parse("+a:m:v=" + text)
	fits := u <= 1<<63-1
	if neg {
		fits = u <= 1<<63
	}
	sym.Assert(sym.Iff(err == nil, fits), "an integer that does not fit is an error")
	if err == nil {
		want := int64(u)
		if neg {
			want = -want
		}
		sym.Assert(int64(v.(int)) == want, "the integer is what was written")
	}
}

// H_C01_number: decimal numbers d, dd, d.d and dd.dd with either sign.
func H_C01_number() {
	ip := 1 + sym.Choose("int", 2)
	fp := sym.Choose("frac", 3)
	s := sym.StringOf("i", ip, ip, "0123456789")
	if ip > 1 {
		sym.Assume(s[0] != '0')
	}
	fr := sym.StringOf("f", fp, fp, "0123456789")
	var m uint64
	for _, c := range []byte(s + fr) {
		m = m*10 + uint64(c-'0')
	}
	want := float64(m)
	neg := sym.Choose("neg", 2) == 1
	if neg {
		want = -want
	}
	if fp == 1 {
		want /= 10
	}
	if fp == 2 {
		want /= 100
	}
	text := s
	if fp > 0 {
		text += "." + fr
	}
	if neg {
		text = "-" + text
	}
	eq := func(got float64) { sym.Assert(got == want, "the number is what was written") }
	switch sym.Choose("context", 3) {
	case 0:
		eq(parseOK(defNum, "+a:m:v="+text).(float64))
	case 1:
		f := parseFull("+a:m:num=" + text + ",str=x")
		sym.Assert(f.Str == "x", "the other arguments are what was written")
		eq(f.Num)
	case 2:
		if fp == 0 {
			return
		}
		f := parseFull("+a:m:any=" + text + ",str=x")
		n, ok := f.Any.(float64)
		sym.Assert(ok && f.Str == "x", "a number of any type is a float64")
		eq(n)
	}
}

// H_C01_order: any subset of 7 arguments of different types, in 3 (thorough: all 7) places in any order, with arbitrary letters in the strings.
func H_C01_order() {
	a, b := sym.StringOf("a", 1, 1, bareEnds), sym.StringOf("b", 1, 1, bareEnds)
	parts := []string{"str=" + a, "int=5", "bool=true", "list=" + a + ";" + b, "map={k:" + b + "}", "ptr=" + b, "any=\"" + "z\""}
	var used [7]bool
	text := ""
	n := 3
	if sym.Tier() > 0 {
		n = 5
	}
	comma := []string{",", ", ", " , "}[sym.Choose("comma", 3)]
	for i := 0; i < n; i++ {
		k := sym.Choose("next", 8)
		if k == 7 {
			break
		}
		sym.Assume(!used[k])
		used[k] = true
		if text != "" {
			text += comma
		}
		text += parts[k]
	}
	sym.Assume(text != "")
	f := parseFull("+a:m:" + text)
	wantStr := ""
	if used[0] {
		wantStr = a
	}
	sym.Assert(sym.StrEq(f.Str, wantStr), "str is what was written")
	sym.Assert(f.Int == map[bool]int{true: 5}[used[1]], "int is what was written")
	sym.Assert(f.Bool == used[2], "bool is what was written")
	if used[3] {
		sym.Assert(len(f.List) == 2 && sym.And(sym.StrEq(f.List[0], a), sym.StrEq(f.List[1], b)), "list is what was written")
	} else {
		sym.Assert(f.List == nil, "an absent argument leaves its field untouched")
	}
	if used[4] {
		sym.Assert(len(f.Map) == 1 && sym.StrEq(f.Map["k"], b), "map is what was written")
	} else {
		sym.Assert(f.Map == nil, "an absent argument leaves its field untouched")
	}
	if used[5] {
		sym.Assert(f.Ptr != nil && sym.StrEq(*f.Ptr, b), "ptr is what was written")
	} else {
		sym.Assert(f.Ptr == nil, "an absent argument leaves its field untouched")
	}
	if used[6] {
		sym.Assert(f.Any == interface{}("z"), "any is what was written")
	} else {
		sym.Assert(f.Any == nil, "an absent argument leaves its field untouched")
	}
	sym.Assert(f.Other == "" && f.I32 == 0 && f.PI == nil && f.PB == nil && f.Num == 0 && f.PList == nil && f.Ints == nil && f.LL == nil && f.LS == nil && f.MInt == nil && f.ML == nil, "an absent argument leaves its field untouched")
}

// H_C01_lists: lists of 0 to 3 arbitrary one-letter strings, booleans, and nested lists, in both forms, with and without spaces.
func H_C01_lists() {
	n := sym.Choose("n", 4)
	sep, open, end := ";", "", ""
	if sym.Choose("form", 2) == 1 {
		sep, open, end = ",", "{", "}"
	} else {
		sym.Assume(n > 0)
	}
	switch sym.Choose("space", 4) {
	case 1:
		sep += " "
	case 2:
		sep = " " + sep
	case 3:
		sep = " " + sep + " "
		if open != "" {
			open, end = " { ", " } "
		}
	}
	var items []string
	text := ""
	for i := 0; i < n; i++ {
		it := sym.StringOf(fmt.Sprintf("i%d", i), 1, 1, bareEnds)
		items = append(items, it)
		if i > 0 {
			text += sep
		}
		text += it
	}
	text = open + text + end
	eq := func(got []string) {
		sym.Assert(len(got) == n, "the list has as many items as written")
		for i := range got {
			sym.Assert(sym.StrEq(got[i], items[i]), "the items are what was written, in order")
		}
	}
	switch sym.Choose("context", 4) {
	case 0:
		eq(parseOK(defList, "+a:m:v="+strings.TrimRight(text, " ")).([]string))
	case 1:
		f := parseFull("+a:m:list=" + text + ",str=x")
		sym.Assert(f.Str == "x", "the other arguments are what was written")
		eq(f.List)
	case 2:
		f := parseFull("+a:m:ls={" + text + "},str=x")
		sym.Assert(len(f.LS) == 1 && f.Str == "x", "the other arguments are what was written")
		eq(f.LS[0])
	case 3:
		f := parseFull("+a:m:ml={k:" + text + ",l:{z}}")
		sym.Assert(len(f.ML) == 2 && len(f.ML["l"]) == 1 && f.ML["l"][0] == "z", "the other entries are what was written")
		eq(f.ML["k"])
	}
}

// H_C01_misc: booleans, raw arguments of one (thorough: two) arbitrary printable bytes, markers without arguments.
func H_C01_misc() {
	switch sym.Choose("case", 6) {
	case 0:
		sym.Assert(parseOK(defBool, "+a:m:v=true").(bool), "true")
		sym.Assert(!parseOK(defBool, "+a:m:v=false").(bool), "false")
	case 1:
		f := parseFull("+a:m:bool=true,pb=false")
		sym.Assert(f.Bool && f.PB != nil && !*f.PB, "booleans are what was written")
	case 2:
		s := sym.String("s", 1+sym.Tier())
		sym.Assume(s != "")
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] >= ' ' && s[i] < 0x7f)
		}
		v := parseOK(defRaw, "+a:m:v="+s)
		sym.Assert(sym.StrEq(string(v.(markers.RawArguments)), s), "raw arguments are passed on unchanged")
	case 3:
		sym.Assert(parseOK(defEmpty, "+a:m:v") == struct{}{}, "a marker without arguments")
	case 4:
		f := parseFull("+a:m")
		sym.Assert(f.Str == "" && f.Ptr == nil && f.Any == nil && f.List == nil && f.Map == nil, "absent arguments leave their fields untouched")
	case 5:
		sym.Assert(parseOK(defPtr, "+a:m:v").(*int) == nil, "an absent optional value is nil")
		p := parseOK(defPtr, "+a:m:v=3").(*int)
		sym.Assert(p != nil && *p == 3, "a present optional value is set")
		m := parseOK(defMap, "+a:m:v={}").(map[string]string)
		sym.Assert(m != nil && len(m) == 0, "an empty map")
		b := parseOK(defAnyWrap, "+a:m:v=true").(anyWrap)
		sym.Assert(b.Value == interface{}(true), "a boolean of any type")
	}
}
