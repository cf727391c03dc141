package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Model of encoding/json.Marshal over interpreted values.

type jfield struct {
	name      string
	path      []int
	omitEmpty bool
	omitZero  bool
	quoted    bool
	tagged    bool
	t         types.Type
}

func jsonFields(t types.Type) []jfield {
	type item struct {
		t    types.Type
		path []int
	}
	var out []jfield
	seen := map[string]bool{}
	visited := map[types.Type]bool{}
	level := []item{{t, nil}}
	for len(level) > 0 {
		var next []item
		var cur []jfield
		for _, it := range level {
			ct := canon(it.t)
			if visited[ct] {
				continue
			}
			visited[ct] = true
			st := it.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				path := append(append([]int(nil), it.path...), i)
				ft := f.Type()
				et := ft
				if p, ok := et.Underlying().(*types.Pointer); ok {
					if _, isNamed := types.Unalias(et).(*types.Named); !isNamed {
						et = p.Elem()
					}
				}
				_, isStruct := et.Underlying().(*types.Struct)
				if f.Anonymous() {
					if !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				if f.Anonymous() && name == "" && isStruct {
					next = append(next, item{et, path})
					continue
				}
				jf := jfield{name: name, path: path, tagged: name != "", t: ft}
				if name == "" {
					jf.name = f.Name()
				}
				for _, o := range strings.Split(opts, ",") {
					switch o {
					case "omitempty":
						jf.omitEmpty = true
					case "omitzero":
						jf.omitZero = true
					case "string":
						jf.quoted = true
					}
				}
				cur = append(cur, jf)
			}
		}
		byName := map[string][]jfield{}
		for _, f := range cur {
			byName[f.name] = append(byName[f.name], f)
		}
		for _, f := range cur {
			if seen[f.name] {
				continue
			}
			fs := byName[f.name]
			if len(fs) > 1 {
				var tg []jfield
				for _, g := range fs {
					if g.tagged {
						tg = append(tg, g)
					}
				}
				if len(tg) != 1 || !f.tagged {
					continue
				}
			}
			out = append(out, f)
		}
		for n := range byName {
			seen[n] = true
		}
		level = next
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].path, out[j].path
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

type jenc struct {
	m   *M
	out []value
	err value // iface error
}

func (e *jenc) lit(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, smallInts[int(s[i])+256])
	}
}

func (e *jenc) str(v value) {
	if s, ok := v.(string); ok {
		b, _ := json.Marshal(s)
		e.lit(string(b))
		return
	}
	m := e.m
	e.lit("\"")
	n := strLen(v)
	for i := 0; i < n; {
		switch c := strAt(v, i).(type) {
		case int64:
			if c < 0x80 {
				b, _ := json.Marshal(string(rune(c)))
				e.lit(string(b[1 : len(b)-1]))
				i++
				continue
			}
		case *Term:
			cx := m.ctx
			ne := func(x byte) *Term { return cx.Not(cx.Eq(c, cx.BV(uint64(x), 8))) }
			safe := cx.And(cx.cmp(OUle, cx.BV(0x20, 8), c), cx.cmp(OUlt, c, cx.BV(0x80, 8)), ne('"'), ne('\\'), ne('<'), ne('>'), ne('&'))
			if m.branchT(safe) {
				e.out = append(e.out, c)
				i++
				continue
			}
			if m.branchT(cx.cmp(OUlt, c, cx.BV(0x80, 8))) {
				k := m.concTerm(c)
				b, _ := json.Marshal(string(rune(k)))
				e.lit(string(b[1 : len(b)-1]))
				i++
				continue
			}
		}
		r, size := m.decodeRune(v, i)
		if size == 1 {
			e.lit("\\ufffd")
			i++
			continue
		}
		if rv, ok := r.(int64); ok && (rv == 0x2028 || rv == 0x2029) {
			e.lit(fmt.Sprintf("\\u%04x", rv))
			i += size
			continue
		}
		if rt, ok := r.(*Term); ok {
			k := m.concTerm(rt)
			b, _ := json.Marshal(string(rune(k)))
			e.lit(string(b[1 : len(b)-1]))
			i += size
			continue
		}
		for k := 0; k < size; k++ {
			e.out = append(e.out, strAt(v, i+k))
		}
		i += size
	}
	e.lit("\"")
}

func (e *jenc) marshalerBytes(v value) bool {
	tp := v.(tuple)
	if er := tp[1].(iface); er.t != nil {
		e.err = er
		return false
	}
	b := tp[0].([]value)
	if s, ok := mkStr(b).(string); ok {
		var buf bytes.Buffer
		if err := json.Compact(&buf, []byte(s)); err != nil {
			e.err = e.m.goCall("errors", "New", "json: error calling MarshalJSON: "+err.Error())
			return false
		}
		var h bytes.Buffer
		json.HTMLEscape(&h, buf.Bytes())
		e.lit(h.String())
		return true
	}
	e.out = append(e.out, b...)
	return true
}

var marshalerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "MarshalJSON",
	types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewSlice(types.Typ[types.Byte])),
		types.NewVar(0, nil, "", errorIface)), false))}, nil).Complete()
var textMarshalerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "MarshalText",
	types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewSlice(types.Typ[types.Byte])),
		types.NewVar(0, nil, "", errorIface)), false))}, nil).Complete()

func (e *jenc) enc(t types.Type, v value, addr *value, quoted bool, depth int) bool {
	m := e.m
	if depth > 60 {
		panic(pathAbort{"unsupported", "json nesting"})
	}
	ct := canon(t)
	_, isIface := t.Underlying().(*types.Interface)
	if !isIface {
		for k, it := range []*types.Interface{marshalerIface, textMarshalerIface} {
			recv := iface{}
			if m.implements(ct, it) {
				if p, ok := v.(*value); ok && p == nil {
					e.lit("null")
					return true
				}
				recv = iface{ct, v}
			} else if addr != nil {
				if pt := canon(types.NewPointer(ct)); m.implements(pt, it) {
					recv = iface{pt, addr}
				}
			}
			if recv.t != nil {
				if k == 0 {
					r, _ := m.callMethod(recv, "MarshalJSON")
					return e.marshalerBytes(r)
				}
				r, _ := m.callMethod(recv, "MarshalText")
				tp := r.(tuple)
				if er := tp[1].(iface); er.t != nil {
					e.err = er
					return false
				}
				e.str(mkStr(tp[0].([]value)))
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if quoted {
			panic(pathAbort{"unsupported", "json string option"})
		}
		switch {
		case u.Info()&types.IsString != 0:
			e.str(v)
		case u.Info()&types.IsBoolean != 0:
			e.lit(strconv.FormatBool(m.branchV(v)))
		case u.Info()&types.IsInteger != 0:
			ii, _ := basicInt(u)
			e.out = append(e.out, strBytes(m.fmtInt(v, ii, 10))...)
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if !ok {
				panic(pathAbort{"unsupported", "json of a symbolic float"})
			}
			var x any = f
			if u.Kind() == types.Float32 {
				x = float32(f)
			}
			b, err := json.Marshal(x)
			if err != nil {
				e.err = m.goCall("errors", "New", err.Error())
				return false
			}
			e.lit(string(b))
		default:
			panic(pathAbort{"unsupported", "json of " + t.String()})
		}
		return true
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			e.lit("null")
			return true
		}
		return e.enc(i.t, i.v, nil, quoted, depth+1)
	case *types.Pointer:
		p, _ := v.(*value)
		if p == nil {
			e.lit("null")
			return true
		}
		return e.enc(u.Elem(), *p, p, quoted, depth+1)
	case *types.Struct:
		e.lit("{")
		first := true
		for _, f := range jsonFields(t) {
			fv, ft := v, t
			fa := addr
			skip := false
			for _, ix := range f.path {
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					p, _ := fv.(*value)
					if p == nil {
						skip = true
						break
					}
					fv, fa, ft = *p, p, pt.Elem()
				}
				s := fv.(structure)
				st := ft.Underlying().(*types.Struct)
				ft = st.Field(ix).Type()
				fv = s[ix]
				if fa != nil {
					fa = &s[ix]
				}
			}
			if skip || (f.omitEmpty && e.empty(fv)) || (f.omitZero && e.isZero(ft, fv)) {
				continue
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.str(f.name)
			e.lit(":")
			if !e.enc(ft, fv, fa, f.quoted, depth+1) {
				return false
			}
		}
		e.lit("}")
		return true
	case *types.Map:
		mp, _ := v.(*Map)
		if mp == nil {
			e.lit("null")
			return true
		}
		type kv struct{ k, v value }
		var kvs []kv
		for i := range mp.keys {
			if !mp.live[i] {
				continue
			}
			k := mp.keys[i]
			switch ku := u.Key().Underlying().(type) {
			case *types.Basic:
				if ku.Info()&types.IsString != 0 {
				} else if ii, ok := basicInt(ku); ok {
					k = m.fmtInt(k, ii, 10)
				} else {
					e.err = m.goCall("errors", "New", "json: unsupported type: "+t.String())
					return false
				}
			default:
				e.err = m.goCall("errors", "New", "json: unsupported type: "+t.String())
				return false
			}
			x := kv{k, mp.vals[i]}
			j := len(kvs)
			kvs = append(kvs, x)
			for j > 0 && m.branchV(m.strLess(x.k, kvs[j-1].k)) {
				kvs[j] = kvs[j-1]
				j--
			}
			kvs[j] = x
		}
		e.lit("{")
		for i, x := range kvs {
			if i > 0 {
				e.lit(",")
			}
			e.str(x.k)
			e.lit(":")
			if !e.enc(u.Elem(), x.v, nil, false, depth+1) {
				return false
			}
		}
		e.lit("}")
		return true
	case *types.Slice:
		s, _ := v.([]value)
		if s == nil {
			e.lit("null")
			return true
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			cs, ok := mkStr(s).(string)
			if !ok {
				e.lit("\"")
				e.out = append(e.out, e.m.base64(s)...)
				e.lit("\"")
				return true
			}
			e.lit("\"" + base64.StdEncoding.EncodeToString([]byte(cs)) + "\"")
			return true
		}
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			if !e.enc(u.Elem(), s[i], &s[i], false, depth+1) {
				return false
			}
		}
		e.lit("]")
		return true
	case *types.Array:
		s := v.(array)
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			var fa *value
			if addr != nil {
				fa = &s[i]
			}
			if !e.enc(u.Elem(), s[i], fa, false, depth+1) {
				return false
			}
		}
		e.lit("]")
		return true
	}
	e.err = m.goCall("errors", "New", "json: unsupported type: "+t.String())
	return false
}

func (e *jenc) empty(v value) bool {
	m := e.m
	switch x := v.(type) {
	case string, *SymStr:
		return strLen(x) == 0
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case *Term:
		switch {
		case x.sort == SBool:
			return !m.branchT(x)
		case x.sort <= 64:
			return m.branchT(m.ctx.Eq(x, m.ctx.BV(0, x.sort)))
		}
		return m.branchV(m.equals(x, 0.0))
	case *value:
		return x == nil
	case []value:
		return len(x) == 0
	case array:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case iface:
		return x.t == nil
	}
	return false
}

func (e *jenc) isZero(t types.Type, v value) bool {
	if r, ok := e.m.callMethod(iface{canon(t), v}, "IsZero"); ok {
		return e.m.branchV(r)
	}
	return e.m.branchV(e.m.deepEqual(v, zero(t), 0))
}

func (m *M) jsonMarshal(v iface) ([]value, value) {
	e := &jenc{m: m, err: iface{}}
	if v.t == nil {
		e.lit("null")
		return e.out, iface{}
	}
	if !e.enc(v.t, v.v, nil, false, 0) {
		return nil, e.err
	}
	return e.out, iface{}
}

func addJSON(t map[string]intrinsic) {
	t["encoding/json.Marshal"] = func(m *M, fr *frame, a []value) (value, bool) {
		b, err := m.jsonMarshal(a[0].(iface))
		if b == nil {
			return tuple{[]value(nil), err}, true
		}
		return tuple{b, err}, true
	}
}

// base64 is the standard encoding, with padding.
func (m *M) base64(bs []value) []value {
	c := m.ctx
	ch := func(x *Term) value { // of a 6-bit number
		add := func(d int) *Term { return c.Bin(OAdd, x, c.BV(uint64(d), 8)) }
		lt := func(n uint64) *Term { return c.cmp(OUlt, x, c.BV(n, 8)) }
		return fromInt(c.Ite(lt(26), add('A'), c.Ite(lt(52), add('a'-26), c.Ite(lt(62), add('0'-52), c.Ite(lt(63), c.BV('+', 8), c.BV('/', 8))))), intInfo{8, false})
	}
	op := func(o Op, x *Term, n uint64) *Term { return c.Bin(o, x, c.BV(n, 8)) }
	var out []value
	for i := 0; i < len(bs); i += 3 {
		n := min(3, len(bs)-i)
		b := [3]*Term{c.BV(0, 8), c.BV(0, 8), c.BV(0, 8)}
		for k := 0; k < n; k++ {
			b[k] = m.intTerm(bs[i+k], 8)
		}
		out = append(out, ch(op(OLShr, b[0], 2)), ch(c.Bin(OBOr, op(OShl, op(OBAnd, b[0], 3), 4), op(OLShr, b[1], 4))))
		if n > 1 {
			out = append(out, ch(c.Bin(OBOr, op(OShl, op(OBAnd, b[1], 15), 2), op(OLShr, b[2], 6))))
		} else {
			out = append(out, mkInt('='))
		}
		if n > 2 {
			out = append(out, ch(op(OBAnd, b[2], 63)))
		} else {
			out = append(out, mkInt('='))
		}
	}
	return out
}
