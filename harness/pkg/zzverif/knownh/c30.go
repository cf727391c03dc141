// Package knownh checks the schemas of types from Kubernetes that encode themselves (C30).
package knownh

import (
	"encoding/json"
	"regexp/syntax"
	"time"
	"unicode"

	"golang.org/x/tools/go/packages"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/util/intstr"

	"sigs.k8s.io/controller-tools/pkg/crd"
	cm "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vload"
)

type schema = apiext.JSONSchemaProps

// The packages as far as their types matter. Each has a type of its own with ordinary encoding, to be described like any other.
var sources = []*vload.Pkg{
	vload.One("k8s.io/apimachinery/pkg/apis/meta/v1", "v1", `package v1

import "time"

type Time struct {
	time.Time
}

type MicroTime struct {
	time.Time
}

type Duration struct {
	time.Duration
}

type Fields struct {
	Map map[string]Fields
}

type ObjectMeta struct {
	Name        string            `+"`json:\"name,omitempty\"`"+`
	Namespace   string            `+"`json:\"namespace,omitempty\"`"+`
	Labels      map[string]string `+"`json:\"labels,omitempty\"`"+`
	Annotations map[string]string `+"`json:\"annotations,omitempty\"`"+`
	Finalizers  []string          `+"`json:\"finalizers,omitempty\"`"+`
	Deleted     *Time             `+"`json:\"deletionTimestamp,omitempty\"`"+`
}

type Own struct {
	When  Time   `+"`json:\"when\"`"+`
	Other string `+"`json:\"other\"`"+`
}
`, "time"),
	vload.One("time", "time", "package time\n\ntype Time struct {\n\tn int64\n}\n\ntype Duration int64\n"),
	vload.One("k8s.io/apimachinery/pkg/api/resource", "resource", "package resource\n\ntype Quantity struct {\n\tn int64\n}\n"),
	vload.One("k8s.io/apimachinery/pkg/runtime", "runtime", "package runtime\n\ntype Object interface{}\n\ntype RawExtension struct {\n\tRaw []byte\n\tObject Object\n}\n\ntype Own struct {\n\tOther string `json:\"other\"`\n}\n"),
	vload.One("k8s.io/apimachinery/pkg/util/intstr", "intstr", "package intstr\n\ntype IntOrString struct {\n\tn int\n}\n"),
	vload.One("k8s.io/apimachinery/pkg/apis/meta/v1/unstructured", "unstructured", "package unstructured\n\ntype Unstructured struct {\n\tObject map[string]interface{}\n}\n\ntype Own struct {\n\tOther string `json:\"other\"`\n}\n"),
	vload.One("k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1", "v1", "package v1\n\ntype JSON struct {\n\tRaw []byte\n}\n\ntype Own struct {\n\tOther string `json:\"other\"`\n}\n"),
	vload.One("k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1", "v1beta1", "package v1beta1\n\ntype JSON struct {\n\tRaw []byte\n}\n\ntype Own struct {\n\tOther string `json:\"other\"`\n}\n"),
	vload.One("x.org/v", "v", `package v

import (
	extbeta "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1"
	ext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"
)

type All struct {
	Time     metav1.Time               `+"`json:\"time\"`"+`
	Micro    metav1.MicroTime          `+"`json:\"micro\"`"+`
	Duration metav1.Duration           `+"`json:\"duration\"`"+`
	Fields   metav1.Fields             `+"`json:\"fields\"`"+`
	Meta     metav1.ObjectMeta         `+"`json:\"meta\"`"+`
	Quantity resource.Quantity         `+"`json:\"quantity\"`"+`
	Raw      runtime.RawExtension      `+"`json:\"raw\"`"+`
	IntStr   intstr.IntOrString        `+"`json:\"intstr\"`"+`
	Un       unstructured.Unstructured `+"`json:\"un\"`"+`
	JSON     ext.JSON                  `+"`json:\"json\"`"+`
	JSONBeta extbeta.JSON              `+"`json:\"jsonbeta\"`"+`
	Own1     metav1.Own                `+"`json:\"own1\"`"+`
	Own2     runtime.Own               `+"`json:\"own2\"`"+`
	Own3     unstructured.Own          `+"`json:\"own3\"`"+`
	Own4     ext.Own                   `+"`json:\"own4\"`"+`
	Own5     extbeta.Own               `+"`json:\"own5\"`"+`
	List     []resource.Quantity       `+"`json:\"list\"`"+`
	Map      map[string]*metav1.Time   `+"`json:\"map\"`"+`
}
`, "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1", "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1", "k8s.io/apimachinery/pkg/api/resource",
		"k8s.io/apimachinery/pkg/apis/meta/v1", "k8s.io/apimachinery/pkg/apis/meta/v1/unstructured", "k8s.io/apimachinery/pkg/runtime", "k8s.io/apimachinery/pkg/util/intstr"),
}

var (
	plain, embedded schema
	pattern         *syntax.Prog
)

func build(embed bool) schema {
	pkg := vload.MustLoad(sources, "x.org/v")
	reg := &markers.Registry{}
	if err := cm.Register(reg); err != nil {
		panic(err)
	}
	p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}}, GenerateEmbeddedObjectMeta: embed}
	crd.AddKnownTypes(p)
	p.NeedPackage(pkg)
	id := crd.TypeIdent{Package: pkg, Name: "All"}
	p.NeedFlattenedSchemaFor(id)
	sym.Assert(len(pkg.Errors) == 0, "fields of known types are accepted")
	for _, q := range pkg.Imports() {
		for _, e := range q.Errors {
			// packages that only the insides of known types refer to are not type-checked
			sym.Assert(e.Kind == packages.TypeError, "the packages of known types are accepted")
		}
	}
	return p.FlattenedSchemata[id]
}

func Setup() {
	plain, embedded = build(false), build(true)
	re, err := syntax.Parse(plain.Properties["quantity"].Pattern, syntax.Perl)
	if err != nil {
		panic(err)
	}
	pattern, err = syntax.Compile(re.Simplify())
	if err != nil {
		panic(err)
	}
}

// matches runs the compiled pattern on s; which state it is in after each character is one formula, so the pattern adds no paths.
func matches(p *syntax.Prog, s string) bool {
	cur := make([]bool, len(p.Inst))
	found := false
	// add marks the states that are reached from pc without reading, if cond holds
	var add func(set []bool, at int, pc uint32, cond bool, onPath map[uint32]bool)
	add = func(set []bool, at int, pc uint32, cond bool, onPath map[uint32]bool) {
		if onPath[pc] {
			return
		}
		onPath[pc] = true
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, at, i.Out, cond, onPath)
			add(set, at, i.Arg, cond, onPath)
		case syntax.InstCapture, syntax.InstNop:
			add(set, at, i.Out, cond, onPath)
		case syntax.InstEmptyWidth:
			ok := true
			op := syntax.EmptyOp(i.Arg)
			if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 {
				ok = ok && at == 0
			}
			if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 {
				ok = ok && at == len(s)
			}
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				sym.Unsupported("word boundary")
			}
			if ok {
				add(set, at, i.Out, cond, onPath)
			}
		case syntax.InstMatch:
			found = sym.Or(found, cond)
		case syntax.InstFail:
		default:
			set[pc] = sym.Or(set[pc], cond)
		}
		delete(onPath, pc)
	}
	add(cur, 0, uint32(p.Start), true, map[uint32]bool{})
	for at := 0; at < len(s); at++ {
		next := make([]bool, len(p.Inst))
		for pc := range p.Inst {
			i := &p.Inst[pc]
			switch i.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			default:
				continue
			}
			hit := false
			r := i.Rune
			if len(r) == 1 {
				one := r[0]
				r = []rune{one, one}
				if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(one); f != one; f = unicode.SimpleFold(f) {
						r = append(r, f, f)
					}
				}
			}
			for k := 0; k+1 < len(r); k += 2 {
				hit = sym.Or(hit, sym.And(rune(s[at]) >= r[k], rune(s[at]) <= r[k+1]))
			}
			if i.Op == syntax.InstRuneAny {
				hit = true
			}
			if i.Op == syntax.InstRuneAnyNotNL {
				hit = s[at] != '\n'
			}
			add(next, at+1, i.Out, sym.And(cur[pc], hit), map[uint32]bool{})
		}
		cur = next
		// the pattern may match at a later place too
		add(cur, at+1, uint32(p.Start), true, map[uint32]bool{})
	}
	return found
}

// intOrString: the schema is that of a value that is an integer or a string.
func intOrString(s schema) bool {
	return s.XIntOrString && s.Type == "" && len(s.AnyOf) == 2 && s.AnyOf[0].Type == "integer" && s.AnyOf[1].Type == "string" && s.Format == "" && len(s.AllOf) == 0 && len(s.OneOf) == 0 && len(s.Enum) == 0
}

// H_C30_quantity: every string of up to 3 characters of the digits 0, 1, 9, signs, a dot, and the letters of all suffixes, alone or after one of 3
// beginnings (thorough: up to 5 characters of fewer kinds): one that is a quantity (and has a digit before its suffix) matches the pattern, and one that is not does not, unless it has an exponent.
func H_C30_quantity() {
	s := plain.Properties["quantity"]
	sym.Assert(intOrString(s), "a quantity is an integer or a string")
	text := ""
	if sym.Tier() == 0 {
		text = []string{"", "1", "-.", "1E"}[sym.Choose("begin", 4)] + sym.StringOf("text", 0, 3, "019+-.eEiKkMGTPnum")
	} else {
		text = sym.StringOf("text", 0, 5, "01+-.eEiKm")
	}
	_, err := resource.ParseQuantity(text)
	if err != nil {
		exp := false
		for i := 0; i < len(text); i++ {
			exp = sym.Or(exp, text[i] == 'e', text[i] == 'E')
		}
		sym.Assert(sym.Or(exp, !matches(pattern, text)), "the schema accepts what is no quantity")
		sym.Reach("none")
		return
	}
	// (the parser takes a number without digits for zero, which the grammar it documents does not have)
	digit, suffix := false, false
	for i := 0; i < len(text); i++ {
		suffix = sym.Or(suffix, text[i] > '9')
		digit = sym.Or(digit, sym.And(!suffix, text[i] >= '0', text[i] <= '9'))
	}
	sym.Assert(sym.Implies(digit, matches(pattern, text)), "the schema rejects a quantity")
	sym.Reach("quantity")
}

// H_C30_amounts: the encoding of every amount within 8 (255) of zero, a power of 1000 or 1024 (thorough: the limits of 64 bits), at 5 (10)
// scales and in every format.
func H_C30_amounts() {
	k := int64(sym.Byte("near"))
	base := []int64{0, 1000, 1 << 20, -255, -1 << 63, 1<<63 - 256, 123456789000000}
	scales := []resource.Scale{-9, -4, 0, 2, 3, 7}
	if sym.Tier() == 0 {
		scales = scales[:5]
		sym.Assume(k < 16)
		k -= 8
		base = base[:3]
	} else {
		scales = nil
		for i := resource.Scale(-9); i < 19; i += 3 {
			scales = append(scales, i)
		}
	}
	v := base[sym.Choose("base", len(base))] + k
	scale := scales[sym.Choose("scale", len(scales))]
	q := resource.NewScaledQuantity(v, scale)
	q.Format = []resource.Format{resource.DecimalExponent, resource.BinarySI, resource.DecimalSI}[sym.Choose("format", 3)]
	b, err := q.MarshalJSON()
	sym.Assert(err == nil && len(b) > 2 && b[0] == '"' && b[len(b)-1] == '"', "a quantity is encoded as a string")
	sym.Debug("text", string(b))
	sym.Assert(matches(pattern, string(b[1:len(b)-1])), "the schema rejects the encoding of a quantity")
	sym.Reach("amounts")
}

// H_C30_values: the encodings of arbitrary values of the other types.
func H_C30_values() {
	str := func(id string) string {
		s := sym.String(id, 2)
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.And(s[i] < 0x7f, s[i] >= 0x20, s[i] != '"', s[i] != '\\', s[i] != '<', s[i] != '>', s[i] != '&'))
		}
		return s
	}
	props := plain.Properties
	quoted := func(b []byte) bool { return len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' }
	switch sym.Choose("type", 5) {
	case 0:
		v := intstr.IntOrString{Type: intstr.Type(sym.Choose("kind", 2)), IntVal: []int32{-128, 1<<31 - 256, -1 << 31}[sym.Choose("base", 3)] + int32(sym.Byte("int")), StrVal: str("str")}
		b, err := v.MarshalJSON()
		sym.Assert(err == nil, "encodes")
		sym.Assert(intOrString(props["intstr"]) && props["intstr"].Pattern == "", "an IntOrString is an integer or any string")
		sym.Assert(quoted(b) == (v.Type == intstr.String), "an IntOrString is encoded as what it is")
	case 1:
		v := metav1.Duration{Duration: time.Duration(int64(sym.Byte("n"))) * []time.Duration{1, 1e9, -3600e9}[sym.Choose("unit", 1+2*sym.Tier())]}
		b, err := json.Marshal(v)
		s := props["duration"]
		sym.Assert(err == nil && quoted(b) && s.Type == "string" && s.Format == "" && s.Pattern == "", "a duration is any string")
	case 2:
		t := time.Unix(1700000000+int64(sym.Byte("s")), 0)
		b, err := metav1.Time{Time: t}.MarshalJSON()
		s := props["time"]
		sym.Assert(err == nil && quoted(b) && s.Type == "string" && s.Format == "date-time", "a time is a string that is a date with a time")
		m := props["micro"]
		b, err = metav1.MicroTime{Time: t}.MarshalJSON()
		sym.Assert(err == nil && quoted(b) && m.Type == "string" && m.Format == "date-time", "a time is a string that is a date with a time")
	case 3:
		// any JSON value
		for _, n := range []string{"json", "jsonbeta"} {
			s := props[n]
			sym.Assert(s.Type == "" && s.XPreserveUnknownFields != nil && *s.XPreserveUnknownFields && len(s.Properties) == 0 && s.Items == nil && len(s.AnyOf) == 0 && len(s.AllOf) == 0, "any JSON value is taken and kept")
		}
		r := props["raw"]
		sym.Assert(r.Type == "object" && r.XPreserveUnknownFields != nil && *r.XPreserveUnknownFields && len(r.Properties) == 0 && len(r.Required) == 0, "any object is taken and kept")
		u := props["un"]
		sym.Assert(u.Type == "object" && len(u.Properties) == 0 && len(u.Required) == 0, "any object is taken")
		f := props["fields"]
		sym.Assert(f.Type == "object" && f.AdditionalProperties != nil && f.AdditionalProperties.Allows && f.AdditionalProperties.Schema == nil && len(f.Properties) == 0 && len(f.Required) == 0, "any object is taken")
	case 4:
		// the types are the same wherever they are used, and their neighbours are described as usual
		l := props["list"]
		sym.Assert(l.Type == "array" && intOrString(*l.Items.Schema) && l.Items.Schema.Pattern == props["quantity"].Pattern, "a quantity in a list is a quantity")
		m := props["map"]
		sym.Assert(m.Type == "object" && m.AdditionalProperties.Schema.Type == "string" && m.AdditionalProperties.Schema.Format == "date-time", "a time in a map is a time")
		for _, n := range []string{"own1", "own2", "own3", "own4", "own5"} {
			o := props[n]
			p, ok := o.Properties["other"]
			sym.Assert(o.Type == "object" && ok && p.Type == "string" && len(o.Required) > 0, "other types of the same packages are described like all types")
		}
		sym.Assert(props["own1"].Properties["when"].Format == "date-time", "and refer to the known ones")
	}
	sym.Reach("values")
}

// H_C30_meta: embedded metadata is an object about which nothing more is said, or, with the option, that has exactly the five properties that are
// for users to set, with the types they are encoded as.
func H_C30_meta() {
	str := func(id string) string { return sym.StringOf(id, 0, 2, "ab.") }
	v := metav1.ObjectMeta{Name: str("name"), Namespace: str("namespace")}
	if sym.Choose("labels", 2) == 1 {
		v.Labels = map[string]string{str("key"): str("value")}
	}
	if sym.Choose("annotations", 2) == 1 {
		v.Annotations = map[string]string{str("key'"): str("value'")}
	}
	for i := sym.Choose("finalizers", 3); i > 0; i-- {
		v.Finalizers = append(v.Finalizers, str("finalizer"))
	}
	none := plain.Properties["meta"]
	sym.Assert(none.Type == "object" && len(none.Properties) == 0 && none.AdditionalProperties == nil && len(none.Required) == 0 && none.XPreserveUnknownFields == nil, "nothing is said about embedded metadata")
	s := embedded.Properties["meta"]
	sym.Assert(s.Type == "object" && len(s.Required) == 0 && len(s.Properties) == 5 && s.XPreserveUnknownFields == nil && s.AdditionalProperties == nil, "embedded metadata has the properties for users")
	b, err := json.Marshal(v)
	sym.Assert(err == nil, "encodes")
	sym.Debug("text", string(b))
	// every property of the encoding, by the first character of its value
	i := 1
	for i < len(b) && b[i] == '"' {
		j := i + 1
		for b[j] != '"' {
			j++
		}
		name := string(b[i+1 : j])
		p, known := s.Properties[name]
		if name == "creationTimestamp" {
			break
		}
		sym.Assert(known, "a property of metadata for users is described")
		i = j + 2
		switch b[i] {
		case '"':
			sym.Assert(p.Type == "string" && p.Format == "" && p.Pattern == "" && len(p.Enum) == 0, "a string is a string")
		case '[':
			sym.Assert(p.Type == "array" && p.Items != nil && p.Items.Schema != nil && p.Items.Schema.Type == "string", "a list of strings is a list of strings")
		case '{':
			sym.Assert(p.Type == "object" && len(p.Properties) == 0 && p.AdditionalProperties != nil && p.AdditionalProperties.Schema != nil && p.AdditionalProperties.Schema.Type == "string", "a map of strings is a map of strings")
		}
		depth := 0
		inStr := false
		for ; i < len(b); i++ {
			c := b[i]
			if c == '"' {
				inStr = !inStr
			}
			if inStr {
				continue
			}
			if c == '[' || c == '{' {
				depth++
			}
			if c == ']' || c == '}' {
				depth--
			}
			if c == ',' && depth == 0 {
				i++
				break
			}
		}
	}
	// the other known types of the package are as without the option
	for n, q := range plain.Properties {
		if n != "meta" {
			r, ok := embedded.Properties[n]
			sym.Assert(ok && sym.DeepEqual(q, r), "the option changes nothing else")
		}
	}
	sym.Reach("meta")
}
