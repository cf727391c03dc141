package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Model of package fmt's printing functions: same text as the real ones for the argument shapes handled here; symbolic string
// bytes flow into the result unchanged, so messages stay symbolic.

func (m *M) anyArg(v value) iface {
	if i, ok := v.(iface); ok {
		return i
	}
	panic(engineErr(fmt.Sprintf("fmt argument %T", v)))
}

// goCall calls a package-level function of the interpreted program.
func (m *M) goCall(pkg, name string, args ...value) value {
	fn := m.p.funcByName(pkg, name)
	if fn == nil {
		panic(engineErr("no function " + pkg + "." + name))
	}
	return m.call(fn, args, nil)
}

func (m *M) fmtInt(v value, ii intInfo, base int) value {
	switch x := v.(type) {
	case int64:
		if ii.signed {
			return strconv.FormatInt(x, base)
		}
		return strconv.FormatUint(uint64(x), base)
	case *Term:
		if ii.signed {
			return m.goCall("strconv", "FormatInt", m.fromSel2(m.resize(x, ii), intInfo{64, true}), mkInt(int64(base)))
		}
		return m.goCall("strconv", "FormatUint", m.fromSel2(m.resize(x, ii), intInfo{64, false}), mkInt(int64(base)))
	}
	panic(engineErr(fmt.Sprintf("fmtInt %T", v)))
}

func (m *M) fromSel2(t *Term, ii intInfo) value {
	return fromInt(t, ii)
}

func (m *M) fmtFloat(v value, verb rune, prec int, bits int) value {
	f, ok := v.(float64)
	if !ok {
		// The decimal form of a symbolic float is left open: any four bytes, the same ones for the same number.
		t := v.(*Term)
		bs := make([]value, 4)
		for i := range bs {
			bs[i] = fromInt(m.ctx.Var(fmt.Sprintf("text of float %d.%d", t.id, i), 8), intInfo{8, false})
		}
		return mkStr(bs)
	}
	switch verb {
	case 'v', 'g':
		s := strconv.FormatFloat(f, 'g', prec, bits)
		if verb == 'v' {
			s = fmt.Sprint(f)
			if bits == 32 {
				s = fmt.Sprint(float32(f))
			}
		}
		return s
	default:
		if prec < 0 {
			return fmt.Sprintf("%"+string(verb), f)
		}
		return fmt.Sprintf("%."+strconv.Itoa(prec)+string(verb), f)
	}
}

// handleMethods calls Error or String when the dynamic type has them, as fmt does.
func (m *M) handleMethods(v iface, verb rune, sharp bool) (value, bool) {
	if v.t == nil || sharp {
		return nil, false
	}
	if rt, ok := v.v.(rtype); ok {
		return types.TypeString(rt.t, shortQual), true
	}
	switch verb {
	case 'v', 's', 'x', 'X', 'q':
	default:
		return nil, false
	}
	var res value
	var done bool
	func() {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					if p, isP := v.v.(*value); isP && p == nil {
						res, done = "<nil>", true
						return
					}
					res, done = "%!"+string(verb)+"(PANIC="+m.panicText(tp)+")", true
					return
				}
				panic(r)
			}
		}()
		if m.implements(v.t, errorIface) {
			res, done = m.callMethod(v, "Error")
			return
		}
		if m.implements(v.t, stringerIface) {
			res, done = m.callMethod(v, "String")
		}
	}()
	return res, done
}

var errorIface = types.Universe.Lookup("error").Type()
var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String",
	types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func shortQual(p *types.Package) string { return p.Name() }

// fmtAny formats one interface value with %v-like verbs.
func (m *M) fmtAny(v value, verb rune, plus bool) value {
	i, ok := v.(iface)
	if !ok {
		panic(engineErr(fmt.Sprintf("fmtAny %T", v)))
	}
	if i.t == nil {
		return "<nil>"
	}
	return m.fmtVal(i.t, i.v, verb, plus, false, 0)
}

func (m *M) fmtVal(t types.Type, v value, verb rune, plus, sharp bool, depth int) value {
	if depth > 20 {
		panic(pathAbort{"unsupported", "fmt nesting"})
	}
	if r, done := m.handleMethods(iface{canon(t), v}, verb, sharp); done {
		if verb == 'q' {
			return m.goCall("strconv", "Quote", r)
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return "0x0"
		case u.Info()&types.IsString != 0:
			switch verb {
			case 'q':
				return m.goCall("strconv", "Quote", v)
			case 'v':
				if sharp {
					return m.goCall("strconv", "Quote", v)
				}
				return v
			case 's':
				return v
			case 'x':
				if s, ok := v.(string); ok {
					return fmt.Sprintf("%x", s)
				}
				panic(pathAbort{"unsupported", "%x of a symbolic string"})
			}
			return strConcat(strConcat("%!"+string(verb)+"("+u.Name()+"=", v), ")")
		case u.Info()&types.IsBoolean != 0:
			b := m.branchV(v)
			if verb == 'v' || verb == 't' {
				return strconv.FormatBool(b)
			}
			return fmt.Sprintf("%!"+string(verb)+"(bool=%v)", b)
		case u.Info()&types.IsInteger != 0:
			ii, _ := basicInt(u)
			switch verb {
			case 'v', 'd':
				return m.fmtInt(v, ii, 10)
			case 'x':
				return m.fmtInt(v, ii, 16)
			case 'o':
				return m.fmtInt(v, ii, 8)
			case 'b':
				return m.fmtInt(v, ii, 2)
			case 'c', 'q', 'U', 'X':
				n := int64(m.concInt(v))
				return fmt.Sprintf("%"+string(verb), n)
			}
			return strConcat(strConcat("%!"+string(verb)+"("+u.Name()+"=", m.fmtInt(v, ii, 10)), ")")
		case u.Info()&types.IsFloat != 0:
			bits := 64
			if u.Kind() == types.Float32 {
				bits = 32
			}
			switch verb {
			case 'v', 'g', 'f', 'e':
				return m.fmtFloat(v, verb, -1, bits)
			}
			return strConcat(strConcat("%!"+string(verb)+"("+u.Name()+"=", m.fmtFloat(v, 'v', -1, bits)), ")")
		}
	case *types.Interface:
		i, _ := v.(iface)
		if i.t == nil {
			return "<nil>"
		}
		return m.fmtVal(i.t, i.v, verb, plus, sharp, depth+1)
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil {
			if depth > 0 {
				return "<nil>"
			}
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				return strConcat("&", m.fmtVal(u.Elem(), *p, verb, plus, sharp, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Struct:
		var out value = "{"
		if sharp {
			out = types.TypeString(t, shortQual) + "{"
		}
		s := v.(structure)
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				if sharp {
					out = strConcat(out, ", ")
				} else {
					out = strConcat(out, " ")
				}
			}
			if plus || sharp {
				out = strConcat(out, u.Field(i).Name()+":")
			}
			out = strConcat(out, m.fmtField(u.Field(i).Type(), s[i], verb, plus, sharp, depth+1, u.Field(i).Exported()))
		}
		return strConcat(out, "}")
	case *types.Slice, *types.Array:
		var elems []value
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			elems, _ = v.([]value)
			et = sl.Elem()
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
				if verb == 'q' {
					return m.goCall("strconv", "Quote", mkStr(elems))
				}
				return mkStr(append([]value(nil), elems...))
			}
		} else {
			elems, _ = v.(array)
			et = u.(*types.Array).Elem()
		}
		var out value = "["
		if sharp {
			if v == nil || (elems == nil) {
				return types.TypeString(t, shortQual) + "(nil)"
			}
			out = types.TypeString(t, shortQual) + "{"
		}
		for i, e := range elems {
			if i > 0 {
				if sharp {
					out = strConcat(out, ", ")
				} else {
					out = strConcat(out, " ")
				}
			}
			out = strConcat(out, m.fmtVal(et, e, verb, plus, sharp, depth+1))
		}
		if sharp {
			return strConcat(out, "}")
		}
		return strConcat(out, "]")
	case *types.Map:
		mp, _ := v.(*Map)
		var out value = "map["
		if mp != nil {
			var ord []int
			conc := true
			for i := range mp.keys {
				if mp.live[i] {
					ord = append(ord, i)
					switch k := mp.keys[i].(type) {
					case string, int64, bool:
					case iface:
						switch k.v.(type) {
						case string, int64:
						default:
							conc = false
						}
					default:
						conc = false
					}
				}
			}
			if conc {
				sort.Slice(ord, func(i, j int) bool { return lessKey(mp.keys[ord[i]], mp.keys[ord[j]]) })
			} else if len(ord) > 1 {
				m.note("fmt of a map with non-basic keys")
			}
			for n, i := range ord {
				if n > 0 {
					out = strConcat(out, " ")
				}
				out = strConcat(out, m.fmtVal(u.Key(), mp.keys[i], verb, plus, sharp, depth+1))
				out = strConcat(out, ":")
				out = strConcat(out, m.fmtVal(u.Elem(), mp.vals[i], verb, plus, sharp, depth+1))
			}
		}
		return strConcat(out, "]")
	case *types.Signature, *types.Chan:
		return "0x1000000"
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("fmt %%%c of %s", verb, t)})
}

// fmtField formats a struct field; fmt does not call methods on unexported fields.
func (m *M) fmtField(t types.Type, v value, verb rune, plus, sharp bool, depth int, exported bool) value {
	if !exported {
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Pointer, *types.Struct, *types.Interface:
			if _, isNamed := t.(*types.Named); isNamed {
				return m.fmtVal(u, v, verb, plus, sharp, depth)
			}
		}
	}
	return m.fmtVal(t, v, verb, plus, sharp, depth)
}

func lessKey(a, b value) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x < y
	case int64:
		y, ok := b.(int64)
		return ok && x < y
	case bool:
		y, ok := b.(bool)
		return ok && !x && y
	case iface:
		y, ok := b.(iface)
		return ok && lessKey(x.v, y.v)
	}
	return false
}

func (m *M) sprintf(format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		panic(pathAbort{"unsupported", "symbolic format string"})
	}
	var out value = ""
	lit := []byte{}
	flush := func() {
		if len(lit) > 0 {
			out = strConcat(out, string(lit))
			lit = lit[:0]
		}
	}
	ai := 0
	reordered := false
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit = append(lit, f[i])
			continue
		}
		i++
		if i >= len(f) {
			lit = append(lit, "%!(NOVERB)"...)
			break
		}
		flush()
		start := i
		plus, sharp := false, false
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == ' ' || f[i] == '0') {
			plus = plus || f[i] == '+'
			sharp = sharp || f[i] == '#'
			i++
		}
		width := false
		prec := -1
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = true
			i++
		}
		if i < len(f) && f[i] == '[' {
			j := i + 1
			n := 0
			for j < len(f) && f[j] != ']' {
				n = n*10 + int(f[j]-'0')
				j++
			}
			ai = n - 1
			reordered = true
			i = j + 1
		}
		if i < len(f) && f[i] == '*' {
			panic(pathAbort{"unsupported", "fmt *"})
		}
		if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		verb := rune(f[i])
		if verb == '%' {
			lit = append(lit, '%')
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := m.anyArg(args[ai])
		ai++
		if width || prec >= 0 || f[start] == '-' || f[start] == ' ' || f[start] == '0' {
			// padded or with a precision: concrete basic values only
			var n any
			switch x := a.v.(type) {
			case string:
				n = x
			case int64:
				n = x
				if ii, ok := basicInt(a.t); ok && !ii.signed {
					n = uint64(x)
				}
			case float64:
				n = x
			case bool:
				n = x
			default:
				panic(pathAbort{"unsupported", "padded fmt of a symbolic or composite value"})
			}
			out = strConcat(out, fmt.Sprintf("%"+f[start:i+1], n))
			continue
		}
		if a.t == nil {
			switch verb {
			case 'v', 'T':
				out = strConcat(out, "<nil>")
			default:
				out = strConcat(out, "%!"+string(verb)+"(<nil>)")
			}
			continue
		}
		switch verb {
		case 'T':
			out = strConcat(out, types.TypeString(a.t, shortQual))
		case 'p':
			out = strConcat(out, "0xc000000000")
		case 'w':
			out = strConcat(out, m.fmtVal(a.t, a.v, 'v', plus, sharp, 0))
		default:
			out = strConcat(out, m.fmtVal(a.t, a.v, verb, plus, sharp, 0))
		}
	}
	flush()
	if !reordered && ai < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (m *M) sprint(args []value, ln bool) value {
	var out value = ""
	prevStr := true
	for i, x := range args {
		a := m.anyArg(x)
		isStr := false
		if a.t != nil {
			if b, ok := a.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strConcat(out, " ")
		}
		out = strConcat(out, m.fmtAny(a, 'v', false))
		prevStr = isStr
	}
	return out
}

func addFmt(t map[string]intrinsic) {
	va := func(v value) []value { s, _ := v.([]value); return s }
	t["fmt.Sprintf"] = func(m *M, fr *frame, a []value) (value, bool) { return m.sprintf(a[0], va(a[1])), true }
	t["fmt.Sprint"] = func(m *M, fr *frame, a []value) (value, bool) { return m.sprint(va(a[0]), false), true }
	t["fmt.Sprintln"] = func(m *M, fr *frame, a []value) (value, bool) {
		return strConcat(m.sprint(va(a[0]), true), "\n"), true
	}
	write := func(m *M, w value, s value) value {
		b := append([]value(nil), strBytes(s)...)
		r, okk := m.callMethod(w.(iface), "Write", b)
		if !okk {
			panic(engineErr("no Write method"))
		}
		return r
	}
	t["fmt.Fprintf"] = func(m *M, fr *frame, a []value) (value, bool) {
		return write(m, a[0], m.sprintf(a[1], va(a[2]))), true
	}
	t["fmt.Fprint"] = func(m *M, fr *frame, a []value) (value, bool) {
		return write(m, a[0], m.sprint(va(a[1]), false)), true
	}
	t["fmt.Fprintln"] = func(m *M, fr *frame, a []value) (value, bool) {
		return write(m, a[0], strConcat(m.sprint(va(a[1]), true), "\n")), true
	}
	out := func(m *M, s value) (value, bool) {
		if debugOn {
			println("OUT", m.debugStr(s))
		}
		m.stdout = append(m.stdout, s)
		return tuple{mkInt(int64(strLen(s))), iface{}}, true
	}
	t["fmt.Printf"] = func(m *M, fr *frame, a []value) (value, bool) { return out(m, m.sprintf(a[0], va(a[1]))) }
	t["fmt.Print"] = func(m *M, fr *frame, a []value) (value, bool) { return out(m, m.sprint(va(a[0]), false)) }
	t["fmt.Println"] = func(m *M, fr *frame, a []value) (value, bool) {
		return out(m, strConcat(m.sprint(va(a[0]), true), "\n"))
	}
	t["fmt.Errorf"] = func(m *M, fr *frame, a []value) (value, bool) {
		msg := m.sprintf(a[0], va(a[1]))
		f, _ := a[0].(string)
		// the operands of %w, in order
		var wrapped []value
		ai := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '.' || (f[i] >= '0' && f[i] <= '9')) {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && ai < len(va(a[1])) {
				if w := m.anyArg(va(a[1])[ai]); w.t != nil && m.implements(w.t, errorIface) {
					wrapped = append(wrapped, w)
				}
			}
			ai++
		}
		switch len(wrapped) {
		case 0:
			return m.goCall("errors", "New", msg), true
		case 1:
			p := new(value)
			*p = structure{msg, wrapped[0]}
			return iface{m.p.ptrTo("fmt", "wrapError"), p}, true
		default:
			p := new(value)
			*p = structure{msg, wrapped}
			return iface{m.p.ptrTo("fmt", "wrapErrors"), p}, true
		}
	}
}

// ptrTo returns the canonical type *pkg.name.
func (p *Program) ptrTo(pkg, name string) types.Type {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(engineErr("package " + pkg + " not loaded"))
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(engineErr(pkg + "." + name + " not found"))
	}
	return canon(types.NewPointer(o.Type()))
}

var _ *ssa.Function
