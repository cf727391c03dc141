// Package yamlh checks the YAML node editor of the schema patcher (C20). It stands below pkg/schemapatcher because the editor is internal.
package yamlh

import (
	"fmt"

	rawyaml "gopkg.in/yaml.v3"

	yamlop "sigs.k8s.io/controller-tools/pkg/schemapatcher/internal/yaml"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
)

// tree is what a node is to a reader: its kind, value, comments, and for mappings its entries in order.
type tree struct {
	kind    rawyaml.Kind
	tag     string
	value   string
	comment string
	keys    []*tree
	vals    []*tree
}

func read(n *rawyaml.Node) *tree {
	t := &tree{kind: n.Kind, tag: n.Tag, value: n.Value, comment: n.HeadComment + "|" + n.LineComment + "|" + n.FootComment}
	if n.Kind == rawyaml.MappingNode {
		sym.Assert(len(n.Content)%2 == 0, "a mapping has a value for every key")
		for i := 0; i+1 < len(n.Content); i += 2 {
			t.keys = append(t.keys, read(n.Content[i]))
			t.vals = append(t.vals, read(n.Content[i+1]))
		}
		return t
	}
	for _, c := range n.Content {
		t.vals = append(t.vals, read(c))
	}
	return t
}

func (t *tree) find(key string) int {
	for i, k := range t.keys {
		if k.value == key {
			return i
		}
	}
	return -1
}

// get returns what is at a path, and whether the path runs through something that is no mapping.
func (t *tree) get(path []string) (*tree, bool) {
	for _, k := range path {
		if t.kind != rawyaml.MappingNode {
			return nil, true
		}
		i := t.find(k)
		if i < 0 {
			return nil, false
		}
		t = t.vals[i]
	}
	return t, false
}

// set puts v at a path; false if the path runs through something that is no mapping.
func (t *tree) set(v *tree, path []string) bool {
	for len(path) > 0 {
		if t.kind != rawyaml.MappingNode {
			return false
		}
		i := t.find(path[0])
		if i < 0 {
			t.keys = append(t.keys, &tree{kind: rawyaml.ScalarNode, tag: "!!str", value: path[0], comment: "||"})
			t.vals = append(t.vals, &tree{kind: rawyaml.MappingNode, comment: "||"})
			i = len(t.keys) - 1
		}
		t, path = t.vals[i], path[1:]
	}
	*t = *v
	return true
}

func (t *tree) remove(path []string) bool {
	up, through := t.get(path[:len(path)-1])
	if through {
		return false
	}
	if up == nil {
		return true
	}
	if up.kind != rawyaml.MappingNode {
		return false
	}
	if i := up.find(path[len(path)-1]); i >= 0 {
		var keys, vals []*tree
		for j := range up.keys {
			if j != i {
				keys, vals = append(keys, up.keys[j]), append(vals, up.vals[j])
			}
		}
		up.keys, up.vals = keys, vals
	}
	return true
}

func key(id string) string { return sym.StringOf(id, 1, 1, "abc") }

// some is an arbitrary node: a scalar, a sequence holding a mapping, or a mapping of up to n entries with different keys.
func some(id string, depth, n int) *rawyaml.Node {
	node := &rawyaml.Node{HeadComment: "# h" + id, LineComment: "# l" + id, FootComment: "# f" + id}
	kinds := 3
	if depth == 0 {
		kinds = 1
	}
	switch sym.Choose(id+".kind", kinds) {
	case 0:
		node.Kind, node.Tag, node.Value = rawyaml.ScalarNode, "!!str", "v"+id
	case 1:
		node.Kind = rawyaml.SequenceNode
		node.Content = []*rawyaml.Node{{Kind: rawyaml.MappingNode, Content: []*rawyaml.Node{{Kind: rawyaml.ScalarNode, Value: "a"}, {Kind: rawyaml.ScalarNode, Value: "b"}}}}
	case 2:
		mapping(id, node, depth, sym.Choose(id+".n", n+1))
	}
	return node
}

func mapping(id string, node *rawyaml.Node, depth, n int) {
	node.Kind, node.Tag = rawyaml.MappingNode, "!!map"
	for i := 0; i < n; i++ {
		cid := fmt.Sprint(id, i)
		k := key(cid + ".key")
		for j := 0; j < i; j++ {
			sym.Assume(node.Content[2*j].Value != k)
		}
		node.Content = append(node.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: k, HeadComment: "# k" + cid}, some(cid, depth-1, 2))
	}
}

func document(id string, depth int) *rawyaml.Node {
	root := &rawyaml.Node{}
	mapping(id, root, depth, sym.Choose(id+".n", 4))
	if sym.Choose(id+".document", 2) == 1 {
		root = &rawyaml.Node{Kind: rawyaml.DocumentNode, HeadComment: "# top", Content: []*rawyaml.Node{root}}
	}
	return root
}

func body(root *rawyaml.Node) *rawyaml.Node {
	if root.Kind == rawyaml.DocumentNode {
		return root.Content[0]
	}
	return root
}

func path(id string, min, max int) []string {
	var p []string
	n := min + sym.Choose(id+".len", max-min+1)
	for i := 0; i < n; i++ {
		p = append(p, key(fmt.Sprint(id, i)))
	}
	return p
}

func same(root *rawyaml.Node, want *tree, msg string) {
	sym.Assert(root.Kind != rawyaml.DocumentNode || root.HeadComment == "# top" && len(root.Content) == 1, "the document stays")
	sym.Assert(sym.DeepEqual(read(body(root)), want), msg)
}

// set, remove and get perform one operation on a document and compare it with its model.
func set(root *rawyaml.Node, model *tree, id string, p []string) bool {
	val := rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: "new" + id, HeadComment: "# n" + id}
	if sym.Choose(id+".as", 2) == 1 {
		val = rawyaml.Node{Kind: rawyaml.MappingNode, Tag: "!!map", Content: []*rawyaml.Node{{Kind: rawyaml.ScalarNode, Value: "a"}, {Kind: rawyaml.ScalarNode, Value: "x" + id}}}
	}
	ok := model.set(read(&val), p)
	err := yamlop.SetNode(root, val, p...)
	sym.Assert((err == nil) == ok, "exactly setting through something that is no mapping is an error")
	same(root, model, "setting a node changes that node and nothing else")
	sym.Reach("set")
	return ok
}

func remove(root *rawyaml.Node, model *tree, p []string) bool {
	ok := model.remove(p)
	err := yamlop.DeleteNode(root, p...)
	sym.Assert((err == nil) == ok, "exactly deleting through something that is no mapping is an error")
	same(root, model, "deleting a node removes its entry and nothing else")
	sym.Reach("deleted")
	return ok
}

func get(root *rawyaml.Node, model *tree, p []string) {
	want, through := model.get(p)
	n, found, err := yamlop.GetNode(root, p...)
	sym.Assert((err != nil) == through, "exactly reading through something that is no mapping is an error")
	sym.Assert(found == (want != nil) && (n != nil) == found, "a node is found exactly if it is there")
	if found {
		sym.Assert(sym.DeepEqual(read(n), want), "the node found is the one at the path")
	}
	same(root, model, "reading changes nothing")
	sym.Reach("read")
}

// H_C20_set: a document of up to 3 entries and 3 levels with comments and any one-letter keys; one node set at any path of up to 3 keys.
func H_C20_set() {
	root := document("d", 2)
	model := read(body(root))
	if set(root, model, "s", path("p", 0, 3)) {
		sym.Reach("ok")
	}
}

// H_C20_delete: such a document; one node deleted at any path of up to 3 keys; the empty path is an error.
func H_C20_delete() {
	root := document("d", 2)
	model := read(body(root))
	p := path("p", 0, 3)
	if len(p) == 0 {
		sym.Assert(yamlop.DeleteNode(root) != nil, "deleting nothing in particular is an error")
		same(root, model, "an error changes nothing")
		return
	}
	remove(root, model, p)
}

// H_C20_get: such a document; any path of up to 3 keys read.
func H_C20_get() {
	root := document("d", 2)
	get(root, read(body(root)), path("p", 0, 3))
}

// H_C20_sequence: a document of up to 2 levels, and up to three operations on paths of up to 2 keys (nodes set earlier included), each followed by reading another path.
func H_C20_sequence() {
	root := document("d", 1)
	model := read(body(root))
	n := 2 + sym.Tier()
	for i := 0; i < n; i++ {
		id := fmt.Sprint("o", i)
		ok := true
		if sym.Choose(id+".delete", 2) == 1 {
			ok = remove(root, model, path(id, 1, 2))
		} else {
			ok = set(root, model, id, path(id, 1, 2))
		}
		if !ok {
			return
		}
		get(root, model, path(id+"g", 1, 2))
	}
}

// H_C20_keys: a mapping (at the top or in another one) with two entries with any different keys of 0 to 2 (thorough: 3) characters; reading,
// setting and deleting any such key.
func H_C20_keys() {
	k := func(id string) string { return sym.String(id, 2+sym.Tier()) }
	m := &rawyaml.Node{Kind: rawyaml.MappingNode, Tag: "!!map"}
	a, b, p := k("a"), k("b"), k("p")
	sym.Assume(a != b)
	for i, s := range []string{a, b} {
		m.Content = append(m.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: s}, &rawyaml.Node{Kind: rawyaml.ScalarNode, Tag: "!!str", Value: fmt.Sprint("v", i)})
	}
	path := []string{p}
	if sym.Choose("nested", 2) == 1 {
		m = &rawyaml.Node{Kind: rawyaml.MappingNode, Content: []*rawyaml.Node{{Kind: rawyaml.ScalarNode, Value: a}, m}}
		path = []string{a, p}
	}
	model := read(m)
	switch sym.Choose("do", 3) {
	case 0:
		get(m, model, path)
	case 1:
		set(m, model, "s", path)
	case 2:
		remove(m, model, path)
	}
}

// H_C20_deep: mappings nested up to 6 deep, the innermost of 0 to 2 entries and the others of 1 or 2; setting or deleting at a path down
// to any of the levels, or beside or below it, and reading there or elsewhere afterwards.
func H_C20_deep() {
	depth := 1 + sym.Choose("depth", 6)
	m := &rawyaml.Node{Kind: rawyaml.MappingNode, Tag: "!!map", HeadComment: "# inner"}
	inner := sym.Choose("inner", 3)
	for i := 0; i < inner; i++ {
		m.Content = append(m.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: fmt.Sprint("k", i), HeadComment: "# e"}, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: "v"})
	}
	siblings := sym.Choose("siblings", 3)
	for i := 1; i < depth; i++ {
		up := &rawyaml.Node{Kind: rawyaml.MappingNode, Tag: "!!map", FootComment: "# f"}
		if siblings == 1 {
			up.Content = append(up.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: "before"}, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: "v"})
		}
		up.Content = append(up.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: "k0", LineComment: "# k"}, m)
		if siblings == 2 {
			up.Content = append(up.Content, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: "k1"}, &rawyaml.Node{Kind: rawyaml.ScalarNode, Value: "v"})
		}
		m = up
	}
	var p []string
	n := 1 + sym.Choose("path", 7)
	for i := 0; i < n-1; i++ {
		p = append(p, "k0")
	}
	p = append(p, []string{"k0", "k1", "before", "other"}[sym.Choose("last", 4)])
	model := read(m)
	ok := true
	if sym.Choose("delete", 2) == 1 {
		ok = remove(m, model, p)
	} else {
		ok = set(m, model, "s", p)
	}
	if ok {
		get(m, model, p)
		get(m, model, p[:len(p)-1])
	}
}

const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// H_C20_convert: a value with a string or key of up to 2 (thorough: 3) printable ASCII characters or (as a value) one of 14 other strings, numbers, booleans,
// null, lists and objects: its YAML tree decodes to the same value, in the style it has, in each of 5 styles, and after it was written to text in the style it has or the default style.
func H_C20_convert() {
	special := []string{"a\nb", "a\n", "\ta", "\u00e9", "\u2028", "\x7f", "a\r\nb", "\x00", "null", "true", "1e3", "0x1f", "2001-01-01", "- a: b\n- c"}
	var s string
	n := sym.Choose("special", 1+len(special))
	if n > 0 {
		s = special[n-1]
	} else {
		s = sym.StringOf("s", 0, 2+sym.Tier(), printable)
	}
	var v, want any
	shape := sym.Choose("shape", 6)
	sym.Assume(shape != 1 || n == 0 && !sym.StrEq(s, "<<")) // as a key, << means to merge
	switch shape {
	case 0:
		v, want = s, s
	case 1:
		v, want = map[string]any{s: []string{}, s + "x": nil}, map[string]any{s: []any{}, s + "x": nil}
	case 2:
		v, want = []any{s, 1, -5, true, 1.5, int64(1) << 53}, []any{s, 1, -5, true, 1.5, 1 << 53}
	case 3:
		v, want = struct {
			A map[string]string `json:"a"`
			B *string           `json:"b,omitempty"`
			C string            `json:"-"`
		}{A: map[string]string{"k": s}}, map[string]any{"a": map[string]any{"k": s}}
	case 4:
		v, want = [][]map[string]any{{{"k": s}}, {}}, []any{[]any{map[string]any{"k": s}}, []any{}}
	case 5:
		v, want = nil, nil
	}
	t, err := yamlop.ToYAML(v)
	if s == "\x7f" && shape != 5 {
		sym.Assert(err != nil, "a control character that YAML cannot hold is reported")
		return
	}
	sym.Assert(err == nil && t != nil, "every value converts")
	st := sym.Choose("style", 6)
	if st > 0 {
		if t.Kind == rawyaml.DocumentNode {
			t = t.Content[0]
		}
		yamlop.SetStyle(t, []rawyaml.Style{0, rawyaml.DoubleQuotedStyle, rawyaml.SingleQuotedStyle, rawyaml.FlowStyle, rawyaml.LiteralStyle}[st-1])
	}
	var got any
	err = t.Decode(&got)
	sym.Assert(err == nil && sym.DeepEqual(got, want), "a value converted to YAML and back is another one")
	sym.Reach("converted")
	if st < 2 {
		b, err := rawyaml.Marshal(t)
		sym.Assert(err == nil, "the tree can be written")
		got = nil
		err = rawyaml.Unmarshal(b, &got)
		sym.Assert(err == nil && sym.DeepEqual(got, want), "a value converted to YAML text and back is another one")
		sym.Reach("written")
	}
}
