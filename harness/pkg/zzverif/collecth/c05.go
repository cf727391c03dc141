package collecth

import (
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

func wsByte(c byte) bool { return c == ' ' || c == '\t' }

func trimRight(s string) string {
	for len(s) > 0 && wsByte(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func trimLeft(s string) string {
	for len(s) > 0 && wsByte(s[0]) {
		s = s[1:]
	}
	return s
}

// doc computes the documentation from the lines of a comment: what follows `//` in each line, or the lines of a block comment.
func doc(lines []string, block bool) string {
	var text []string
	for _, b := range lines {
		if !block {
			if t := trimLeft(b); len(t) > 0 && t[0] == '+' {
				continue
			}
			if len(b) > 0 && b[0] == ' ' {
				b = b[1:]
			}
		}
		b = trimRight(b)
		// at most one blank line in a row, none in front
		if b == "" && (len(text) == 0 || text[len(text)-1] == "") {
			continue
		}
		text = append(text, b)
	}
	if len(text) > 0 && text[len(text)-1] == "" {
		text = text[:len(text)-1]
	}
	var out []string
	code := false
	for _, l := range text {
		if block {
			l = trimLeft(l)
		}
		if len(l) >= 3 && (l[:3] == "```" || l[:3] == "~~~") {
			code = !code
		}
		if !code {
			if len(l) >= 4 && l[:4] == "TODO" {
				continue
			}
			if len(l) >= 3 && l[:3] == "---" {
				break
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func comment(lines []string, block bool) string {
	if block {
		return "/*" + strings.Join(lines, "\n") + "*/\n"
	}
	s := ""
	for _, l := range lines {
		s += "//" + l + "\n"
	}
	return s
}

// docsOf returns the documentation of the types and fields of a file.
func docsOf(src string) map[string]string {
	p := load(src)
	col := &markers.Collector{Registry: reg}
	got := map[string]string{}
	err := markers.EachType(col, p, func(info *markers.TypeInfo) {
		got[info.Name] = info.Doc
		for _, f := range info.Fields {
			got[info.Name+"."+f.Name] = f.Doc
		}
	})
	sym.Assert(err == nil && len(p.Errors) == 0, "the file is read without errors")
	return got
}

// put gives the comment to one of the declarations of a file and checks that this declaration, and no other, has its text.
func put(c, want string) {
	at := sym.Choose("at", 5)
	slot := func(i int) string {
		if i == at {
			return c
		}
		return ""
	}
	src := "package p\n\n" +
		slot(0) + "type A struct {\n" + slot(1) + "X, Y int\n\n" + slot(2) + "B\n}\n\n" +
		"// Group documentation.\ntype (\n" + slot(3) + "B int\n\nC int\n)\n\n" + slot(4) + "func f() {}\n"
	got := docsOf(src)
	names := [][]string{{"A"}, {"A.X", "A.Y"}, {"A."}, {"B"}, nil, {"C"}}
	for i, ns := range names {
		for _, n := range ns {
			d, ok := got[n]
			sym.Assert(ok, "every type and field is reported")
			if i == at {
				sym.Assert(sym.StrEq(d, want), "the documentation is the text of the doc comment")
			} else {
				sym.Assert(d == "", "a declaration without doc comment has no documentation")
			}
		}
	}
}

const docAlpha = "TODx-+ `~"

// H_C05_lines: doc comments of 2 lines of up to 4 (thorough: 5) characters, of the letters T, O, D, x, dashes, blanks, plus signs and
// fences, on one of 5 kinds of declarations.
func H_C05_lines() {
	a := sym.StringOf("a", 0, 4+sym.Tier(), docAlpha)
	b := sym.StringOf("b", 0, 2+sym.Tier(), "x-+ ~")
	ls := []string{a, b}
	put(comment(ls, false), doc(ls, false))
}

// H_C05_block: block comments of 2 lines of such characters.
func H_C05_block() {
	a := sym.StringOf("a", 0, 3+sym.Tier(), docAlpha)
	b := sym.StringOf("b", 0, 4, "TOD-x ")
	ls := []string{a, b}
	put(comment(ls, true), doc(ls, true))
}

// lineKinds are whole lines of a doc comment; x stands for an arbitrary letter.
var lineKinds = []string{"", " ", " x text ", "   indented x", "x", " TODO: x", " TODO", "TODO(me) x", " ---", "--- x", " ```", " ~~~yaml", "+m=x", " +m=x", "  +unknown:x", " - x", " a + x", " --", " todo x", "\t", " x // y", " x /* y", "   TODO x", "\tTODO", "   --- x", "    ```"}

// H_C05_paragraphs: doc comments of 3 (thorough: 4) lines, each of one of 26 kinds, with an arbitrary letter in them.
func H_C05_paragraphs() {
	c := sym.StringOf("c", 1, 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,;()!?")
	n := 3 + sym.Tier()
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, strings.Replace(lineKinds[sym.Choose(fmt.Sprintf("kind%d", i), len(lineKinds))], "x", c, 1))
	}
	got := docsOf("package p\n\n" + comment(ls, false) + "type A struct {\n" + comment(ls, false) + "X int\n}\n")
	want := doc(ls, false)
	sym.Assert(sym.StrEq(got["A"], want), "the documentation is the text of the doc comment")
	sym.Assert(sym.StrEq(got["A.X"], want), "the documentation is the text of the doc comment")
}

// H_C05_prefix: a line that has up to 2 (thorough: 3) arbitrary characters before TODO, a rule or a fence, between two lines of text.
func H_C05_prefix() {
	block := sym.Choose("block", 2) == 1
	pre := sym.StringOf("pre", 0, 2+sym.Tier(), " \tTx-`~.")
	word := []string{"TODO", "TOD", "---", "```", "~~~"}[sym.Choose("word", 5)]
	ls := []string{" first", pre + word + sym.StringOf("post", 0, 1, " :xO-`"), " TODO", " last"}
	got := docsOf("package p\n\n" + comment(ls, block) + "type A int\n")
	sym.Assert(sym.StrEq(got["A"], doc(ls, block)), "the documentation is the text of the doc comment")
}

// H_C05_bytes: a line of text with any byte other than a line end in the middle, in both kinds of comments.
func H_C05_bytes() {
	k := sym.Byte("c")
	sym.Assume(k != '\n' && k != '\r' && k != 0 && k < 0x80)
	c := string([]byte{k})
	if sym.Choose("wide", 2) == 1 {
		k2 := sym.Byte("d")
		sym.Assume(k2 >= 0x80 && k2 <= 0xbf)
		c = string([]byte{0xc3, k2})
	}
	block := sym.Choose("block", 2) == 1
	ls := []string{" a" + c + "b", " " + c + "d"}
	if c == "+" && !block {
		ls = ls[:1]
	}
	if c == "/" || c == "*" {
		return
	}
	got := docsOf("package p\n\n" + comment(ls, block) + "type A int\n")
	want := "a" + c + "b"
	if len(ls) == 2 {
		if wsByte(k) && len(c) == 1 {
			second := c + "d"
			if block {
				second = "d"
			}
			want += "\n" + second
		} else {
			want += "\n" + c + "d"
		}
	}
	if block {
		sym.Assume(len(c) == 1 && k > ' ')
	}
	sym.Assert(sym.StrEq(got["A"], want), "no character of the text is lost")
}
