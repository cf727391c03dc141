package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of package reflect over the interpreter's values.
// reflect.Value is structure{rtype, holder, flags}: holder is rref{p} for addressable values.

type rref struct{ p *value }

func rv(t types.Type, v value) value     { return structure{rtype{canon(t)}, v, mkInt(0)} }
func rvRef(t types.Type, p *value) value { return structure{rtype{canon(t)}, rref{p}, mkInt(1)} }
func rvInvalid() value                   { return structure{(*value)(nil), (*value)(nil), mkInt(0)} }
func rvType(v value) types.Type {
	if r, ok := v.(structure)[0].(rtype); ok {
		return r.t
	}
	return nil
}
func rvVal(v value) value {
	h := v.(structure)[1]
	if r, ok := h.(rref); ok {
		return copyVal(*r.p)
	}
	return h
}
func rvAddr(v value) *value {
	if r, ok := v.(structure)[1].(rref); ok {
		return r.p
	}
	return nil
}

func (m *M) rtypeIface(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{m.p.rtypeT(), rtype{canon(t)}}
}

func (p *Program) rtypeT() types.Type {
	p.rtOnce.Do(func() {
		pk := p.prog.ImportedPackage("reflect")
		if pk == nil {
			panic(engineErr("reflect not loaded"))
		}
		p.rtypeType = canon(types.NewPointer(pk.Pkg.Scope().Lookup("rtype").Type()))
	})
	return p.rtypeType
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	panic(engineErr(fmt.Sprintf("rkind %v", t)))
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() }))
			}
			n += "[" + strings.Join(as, ",") + "]"
		}
		return n
	case *types.Basic:
		if x.Kind() == types.UnsafePointer {
			return "Pointer"
		}
		return x.Name()
	}
	return ""
}

func rtypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	s = strings.ReplaceAll(s, "any", "interface {}")
	return s
}

func (m *M) structField(t *types.Struct, i int) value {
	f := t.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return structure{f.Name(), pkg, m.rtypeIface(f.Type()), t.Tag(i), mkInt(0), []value{mkInt(int64(i))}, f.Anonymous()}
}

func rt(v value) types.Type {
	switch x := v.(type) {
	case rtype:
		return x.t
	case iface:
		if x.t == nil {
			return nil
		}
		return rt(x.v)
	}
	panic(engineErr(fmt.Sprintf("rt of %T", v)))
}

func (m *M) exportedMethods(t types.Type) []*types.Selection {
	canonMu.Lock()
	defer canonMu.Unlock()
	ms := m.p.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func (m *M) rtypeMethod(name string, a []value) value {
	t := a[0].(rtype).t
	switch name {
	case "Kind":
		return mkInt(int64(rkind(t)))
	case "Name":
		return typeName(t)
	case "String":
		return rtypeString(t)
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.rtypeIface(u.Elem())
		case *types.Slice:
			return m.rtypeIface(u.Elem())
		case *types.Array:
			return m.rtypeIface(u.Elem())
		case *types.Map:
			return m.rtypeIface(u.Elem())
		case *types.Chan:
			return m.rtypeIface(u.Elem())
		}
		m.rtPanic("reflect: Elem of invalid type " + t.String())
	case "Key":
		return m.rtypeIface(t.Underlying().(*types.Map).Key())
	case "Len":
		return mkInt(t.Underlying().(*types.Array).Len())
	case "NumField":
		return mkInt(int64(t.Underlying().(*types.Struct).NumFields()))
	case "Field":
		s, ok := t.Underlying().(*types.Struct)
		i := m.concInt(a[1])
		if !ok || i < 0 || i >= s.NumFields() {
			m.rtPanic("reflect: Field index out of bounds")
		}
		return m.structField(s, i)
	case "FieldByName":
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if m.branchV(m.strEq(s.Field(i).Name(), a[1])) {
				return tuple{m.structField(s, i), true}
			}
		}
		return tuple{zero(m.p.namedType("reflect", "StructField")), false}
	case "Implements":
		return m.implements(t, canon(rt(a[1])))
	case "AssignableTo":
		return types.AssignableTo(t, rt(a[1]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, rt(a[1]))
	case "Comparable":
		return types.Comparable(t)
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return mkInt(int64(it.NumMethods()))
		}
		return mkInt(int64(len(m.exportedMethods(t))))
	case "Bits":
		ii, ok := basicInt(t)
		if ok {
			return mkInt(int64(ii.w))
		}
		if s, ok := isFloat(t); ok {
			if s == SF32 {
				return mkInt(32)
			}
			return mkInt(64)
		}
	case "Size":
		return mkInt(m.p.sizes.Sizeof(t))
	case "NumIn":
		return mkInt(int64(t.Underlying().(*types.Signature).Params().Len()))
	case "NumOut":
		return mkInt(int64(t.Underlying().(*types.Signature).Results().Len()))
	case "In":
		return m.rtypeIface(t.Underlying().(*types.Signature).Params().At(m.concInt(a[1])).Type())
	case "Out":
		return m.rtypeIface(t.Underlying().(*types.Signature).Results().At(m.concInt(a[1])).Type())
	case "IsVariadic":
		return t.Underlying().(*types.Signature).Variadic()
	case "common", "uncommon":
	case "OverflowInt":
		return m.overflowInt(t, a[1])
	case "OverflowUint":
		ii, _ := basicInt(t)
		return m.overflowU(ii, a[1])
	case "CanSeq", "CanSeq2":
		return false
	}
	panic(pathAbort{"unsupported", "reflect.Type." + name + " on " + t.String()})
}

func (m *M) overflowInt(t types.Type, x value) value {
	ii, _ := basicInt(t)
	if ii.w >= 64 {
		return false
	}
	switch v := x.(type) {
	case int64:
		return ii.norm(v) != v
	case *Term:
		return m.notV(fromBool(m.ctx.Eq(m.ctx.SExt(m.ctx.Trunc(v, ii.w), 64), v)))
	}
	panic(engineErr("overflowInt"))
}
func (m *M) overflowU(ii intInfo, x value) value {
	if ii.w >= 64 {
		return false
	}
	switch v := x.(type) {
	case int64:
		return ii.norm(v) != v
	case *Term:
		return m.notV(fromBool(m.ctx.Eq(m.ctx.ZExt(m.ctx.Trunc(v, ii.w), 64), v)))
	}
	panic(engineErr("overflowU"))
}

func (p *Program) namedType(pkg, name string) types.Type {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(pathAbort{"unsupported", "package " + pkg + " not loaded"})
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(pathAbort{"unsupported", "no " + pkg + "." + name})
	}
	return canon(o.Type())
}

// toIface converts a (static type, value) pair to interface{}.
func toIface(t types.Type, v value) value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return iface{canon(t), v}
}

// assignTo converts value v of type from for a location of type to.
func (m *M) assignTo(to, from types.Type, v value) value {
	_, ti := to.Underlying().(*types.Interface)
	_, fi := from.Underlying().(*types.Interface)
	if ti && !fi {
		return iface{canon(from), v}
	}
	return v
}

func (m *M) rvElem(v value) value {
	t := rvType(v)
	if t == nil {
		m.rtPanic("reflect: call of Elem on zero Value")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := rvVal(v).(*value)
		if !ok {
			panic(pathAbort{"unsupported", "reflect Elem of odd pointer"})
		}
		if p == nil {
			return rvInvalid()
		}
		return rvRef(u.Elem(), p)
	case *types.Interface:
		i := rvVal(v).(iface)
		if i.t == nil {
			return rvInvalid()
		}
		return rv(i.t, i.v)
	}
	m.rtPanic("reflect: call of reflect.Value.Elem on " + t.String() + " Value")
	return nil
}

func (m *M) rvField(v value, i int) value {
	t := rvType(v)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		m.rtPanic("reflect: call of reflect.Value.Field on non-struct Value")
	}
	if i < 0 || i >= s.NumFields() {
		m.rtPanic("reflect: Field index out of range")
	}
	f := s.Field(i)
	var r structure
	if p := rvAddr(v); p != nil {
		r = rvRef(f.Type(), &(*p).(structure)[i]).(structure)
	} else {
		r = rv(f.Type(), rvVal(v).(structure)[i]).(structure)
	}
	fl := v.(structure)[2].(int64) & 2
	if !f.Exported() {
		fl |= 2
	}
	r[2] = mkInt(r[2].(int64) | fl)
	return r
}

func (m *M) rvSet(dst value, v value) {
	p := rvAddr(dst)
	if p == nil {
		m.rtPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if dst.(structure)[2].(int64)&2 != 0 {
		m.rtPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	m.store(p, v)
}

func (m *M) isZeroVal(t types.Type, v value) value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r value = true
		s := v.(structure)
		for i := range s {
			r = m.andV(r, m.isZeroVal(u.Field(i).Type(), s[i]))
		}
		return r
	case *types.Array:
		var r value = true
		for _, e := range v.(array) {
			r = m.andV(r, m.isZeroVal(u.Elem(), e))
		}
		return r
	case *types.Slice:
		return v.([]value) == nil
	case *types.Signature:
		return isNilFunc(v)
	case *types.Interface:
		return v.(iface).t == nil
	}
	return m.equals(v, zero(t))
}

// deepEqual implements reflect.DeepEqual for two interface values.
func (m *M) deepEqual(a, b value, depth int) value {
	x, y := a.(iface), b.(iface)
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if x.t != y.t {
		return false
	}
	return m.deepEqualT(x.t, x.v, y.v, depth)
}

func (m *M) deepEqualT(t types.Type, a, b value, depth int) value {
	if depth > 200 {
		panic(pathAbort{"bound", "DeepEqual depth"})
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok1 := a.(*value)
		q, ok2 := b.(*value)
		if !ok1 || !ok2 {
			return m.equals(a, b)
		}
		if p == q {
			return true
		}
		if p == nil || q == nil {
			return false
		}
		return m.deepEqualT(u.Elem(), *p, *q, depth+1)
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		var r value = true
		for i := range x {
			r = m.andV(r, m.deepEqualT(u.Field(i).Type(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		var r value = true
		for i := range x {
			r = m.andV(r, m.deepEqualT(u.Elem(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			r = m.andV(r, m.deepEqualT(u.Elem(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) || x.Len() != y.Len() {
			return false
		}
		if x == y {
			return true
		}
		var r value = true
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := m.mapGet(y, x.keys[i])
			if !ok {
				return false
			}
			r = m.andV(r, m.deepEqualT(u.Elem(), x.vals[i], v, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Interface:
		return m.deepEqual(a, b, depth+1)
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	}
	return m.equals(a, b)
}

func (m *M) rvCall(fn value, sig *types.Signature, args []value) []value {
	var in []value
	n := sig.Params().Len()
	for i := 0; i < n; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == n-1 {
			var rest []value
			for _, a := range args[i:] {
				rest = append(rest, m.assignTo(pt.(*types.Slice).Elem(), rvType(a), rvVal(a)))
			}
			in = append(in, rest)
			break
		}
		in = append(in, m.assignTo(pt, rvType(args[i]), rvVal(args[i])))
	}
	r := m.callFunc(fn, in...)
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return []value{}
	case 1:
		return []value{rv(rs.At(0).Type(), r)}
	}
	var out []value
	for i, x := range r.(tuple) {
		out = append(out, rv(rs.At(i).Type(), x))
	}
	return out
}

func (m *M) convertTo(to, from types.Type, v value) value {
	if types.Identical(to.Underlying(), from.Underlying()) {
		return v
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return m.assignTo(to, from, v)
	}
	ci := cinstr{a: opnd{kind: oConst, c: v}, dst: 0}
	m.p.compileConvert(&ci, from, to)
	fr := &frame{regs: make([]value, 1)}
	ci.op(m, fr, &ci)
	return fr.regs[0]
}

func addReflect(t map[string]intrinsic) {
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		pk := pk
		reg := func(name string, f func(m *M, a []value) value) {
			n := name
			if strings.HasPrefix(name, "Value.") {
				n = "(" + pk + ".Value)." + name[6:]
			} else {
				n = pk + "." + name
			}
			t[n] = func(m *M, fr *frame, a []value) (value, bool) { return f(m, a), true }
		}
		reg("TypeOf", func(m *M, a []value) value { return m.rtypeIface(a[0].(iface).t) })
		reg("ValueOf", func(m *M, a []value) value {
			i := a[0].(iface)
			if i.t == nil {
				return rvInvalid()
			}
			return rv(i.t, i.v)
		})
		reg("DeepEqual", func(m *M, a []value) value { return m.deepEqual(a[0], a[1], 0) })
		reg("New", func(m *M, a []value) value {
			ty := rt(a[0])
			p := new(value)
			*p = zero(ty)
			return rv(types.NewPointer(ty), p)
		})
		reg("Zero", func(m *M, a []value) value { ty := rt(a[0]); return rv(ty, zero(ty)) })
		reg("Indirect", func(m *M, a []value) value {
			ty := rvType(a[0])
			if ty == nil {
				return a[0]
			}
			if _, ok := ty.Underlying().(*types.Pointer); !ok {
				return a[0]
			}
			return m.rvElem(a[0])
		})
		reg("MakeMap", func(m *M, a []value) value { return rv(rt(a[0]), newMap()) })
		reg("MakeMapWithSize", func(m *M, a []value) value { return rv(rt(a[0]), newMap()) })
		reg("MakeSlice", func(m *M, a []value) value {
			ty := rt(a[0])
			n, c := m.concInt(a[1]), m.concInt(a[2])
			s := make([]value, c)
			for i := range s {
				s[i] = zero(ty.Underlying().(*types.Slice).Elem())
			}
			return rv(ty, s[:n])
		})
		reg("PtrTo", func(m *M, a []value) value { return m.rtypeIface(types.NewPointer(rt(a[0]))) })
		reg("PointerTo", func(m *M, a []value) value { return m.rtypeIface(types.NewPointer(rt(a[0]))) })
		reg("SliceOf", func(m *M, a []value) value { return m.rtypeIface(types.NewSlice(rt(a[0]))) })
		reg("MapOf", func(m *M, a []value) value { return m.rtypeIface(types.NewMap(rt(a[0]), rt(a[1]))) })
		reg("ArrayOf", func(m *M, a []value) value {
			return m.rtypeIface(types.NewArray(rt(a[1]), int64(m.concInt(a[0]))))
		})
		app := func(m *M, s value, xs []value) value {
			ty := rvType(s)
			et := ty.Underlying().(*types.Slice).Elem()
			return rv(ty, m.builtin(nil, "append", []value{rvVal(s), xs}, &cinstr{t: types.NewSlice(et)}))
		}
		reg("Append", func(m *M, a []value) value {
			et := rvType(a[0]).Underlying().(*types.Slice).Elem()
			var xs []value
			for _, x := range a[1].([]value) {
				xs = append(xs, m.assignTo(et, rvType(x), rvVal(x)))
			}
			return app(m, a[0], xs)
		})
		reg("AppendSlice", func(m *M, a []value) value { return app(m, a[0], rvVal(a[1]).([]value)) })
		reg("Copy", func(m *M, a []value) value {
			return m.builtin(nil, "copy", []value{rvVal(a[0]), rvVal(a[1])}, nil)
		})
		reg("Swapper", func(m *M, a []value) value {
			s := a[0].(iface).v.([]value)
			return native{"swapper", func(m *M, b []value) value {
				i, j := m.concInt(b[0]), m.concInt(b[1])
				x, y := copyVal(s[i]), copyVal(s[j])
				m.store(&s[i], y)
				m.store(&s[j], x)
				return nil
			}}
		})
		// Value methods
		reg("Value.IsValid", func(m *M, a []value) value { return rvType(a[0]) != nil })
		reg("Value.Kind", func(m *M, a []value) value {
			if ty := rvType(a[0]); ty != nil {
				return mkInt(int64(rkind(ty)))
			}
			return mkInt(0)
		})
		reg("Value.Type", func(m *M, a []value) value {
			ty := rvType(a[0])
			if ty == nil {
				m.rtPanic("reflect: call of reflect.Value.Type on zero Value")
			}
			return m.rtypeIface(ty)
		})
		reg("Value.Interface", func(m *M, a []value) value {
			ty := rvType(a[0])
			if ty == nil {
				m.rtPanic("reflect: call of reflect.Value.Interface on zero Value")
			}
			if a[0].(structure)[2].(int64)&2 != 0 {
				m.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			return toIface(ty, rvVal(a[0]))
		})
		reg("Value.CanInterface", func(m *M, a []value) value { return a[0].(structure)[2].(int64)&2 == 0 })
		reg("Value.CanSet", func(m *M, a []value) value { return a[0].(structure)[2].(int64) == 1 })
		reg("Value.CanAddr", func(m *M, a []value) value { return rvAddr(a[0]) != nil })
		reg("Value.Addr", func(m *M, a []value) value {
			p := rvAddr(a[0])
			if p == nil {
				m.rtPanic("reflect.Value.Addr of unaddressable value")
			}
			return rv(types.NewPointer(rvType(a[0])), p)
		})
		reg("Value.Elem", func(m *M, a []value) value { return m.rvElem(a[0]) })
		reg("Value.NumField", func(m *M, a []value) value {
			s, ok := rvType(a[0]).Underlying().(*types.Struct)
			if !ok {
				m.rtPanic("reflect: call of NumField on non-struct")
			}
			return mkInt(int64(s.NumFields()))
		})
		reg("Value.Field", func(m *M, a []value) value { return m.rvField(a[0], m.concInt(a[1])) })
		reg("Value.FieldByName", func(m *M, a []value) value {
			s := rvType(a[0]).Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if m.branchV(m.strEq(s.Field(i).Name(), a[1])) {
					return m.rvField(a[0], i)
				}
			}
			return rvInvalid()
		})
		reg("Value.FieldByIndex", func(m *M, a []value) value {
			v := a[0]
			for _, i := range a[1].([]value) {
				if _, ok := rvType(v).Underlying().(*types.Pointer); ok {
					v = m.rvElem(v)
				}
				v = m.rvField(v, m.concInt(i))
			}
			return v
		})
		reg("Value.IsNil", func(m *M, a []value) value {
			switch x := rvVal(a[0]).(type) {
			case *value:
				return x == nil
			case []value:
				return x == nil
			case *Map:
				return x == nil
			case iface:
				return x.t == nil
			case *Chan:
				return x == nil
			case *ssa.Function:
				return x == nil
			case *closure, native:
				return false
			}
			m.rtPanic("reflect: call of reflect.Value.IsNil on " + rvType(a[0]).String() + " Value")
			return nil
		})
		reg("Value.IsZero", func(m *M, a []value) value {
			if rvType(a[0]) == nil {
				m.rtPanic("reflect: call of reflect.Value.IsZero on zero Value")
			}
			return m.isZeroVal(rvType(a[0]), rvVal(a[0]))
		})
		reg("Value.Len", func(m *M, a []value) value {
			return m.builtin(nil, "len", []value{rvVal(a[0])}, nil)
		})
		reg("Value.Cap", func(m *M, a []value) value { return m.builtin(nil, "cap", []value{rvVal(a[0])}, nil) })
		reg("Value.Index", func(m *M, a []value) value {
			ty := rvType(a[0])
			i := m.concInt(a[1])
			switch u := ty.Underlying().(type) {
			case *types.Slice:
				s := rvVal(a[0]).([]value)
				if i < 0 || i >= len(s) {
					m.rtPanic("reflect: slice index out of range")
				}
				return rvRef(u.Elem(), &s[i])
			case *types.Array:
				if p := rvAddr(a[0]); p != nil {
					return rvRef(u.Elem(), &(*p).(array)[i])
				}
				return rv(u.Elem(), rvVal(a[0]).(array)[i])
			case *types.Basic:
				return rv(types.Typ[types.Uint8], strAt(rvVal(a[0]), i))
			}
			m.rtPanic("reflect: call of reflect.Value.Index on " + ty.String())
			return nil
		})
		reg("Value.Slice", func(m *M, a []value) value {
			i, j := m.concInt(a[1]), m.concInt(a[2])
			switch x := rvVal(a[0]).(type) {
			case []value:
				return rv(rvType(a[0]), x[i:j])
			default:
				return rv(rvType(a[0]), strSlice(x, i, j))
			}
		})
		reg("Value.SetLen", func(m *M, a []value) value {
			s := rvVal(a[0]).([]value)
			m.rvSet(a[0], s[:m.concInt(a[1])])
			return nil
		})
		reg("Value.Grow", func(m *M, a []value) value {
			s := rvVal(a[0]).([]value)
			n := m.concInt(a[1])
			if len(s)+n > cap(s) {
				et := rvType(a[0]).Underlying().(*types.Slice).Elem()
				ns := make([]value, len(s)+n)
				copy(ns, s)
				for i := len(s); i < len(ns); i++ {
					ns[i] = zero(et)
				}
				m.rvSet(a[0], ns[:len(s)])
			}
			return nil
		})
		reg("Value.String", func(m *M, a []value) value {
			ty := rvType(a[0])
			if ty == nil {
				return "<invalid Value>"
			}
			if isStr(ty) {
				return rvVal(a[0])
			}
			return "<" + rtypeString(ty) + " Value>"
		})
		reg("Value.Int", func(m *M, a []value) value {
			ii, _ := basicInt(rvType(a[0]))
			switch x := rvVal(a[0]).(type) {
			case int64:
				return x
			case *Term:
				return m.resize(x, ii)
			}
			m.rtPanic("reflect: call of reflect.Value.Int on " + rvType(a[0]).String())
			return nil
		})
		t["("+pk+".Value).Uint"] = t["("+pk+".Value).Int"]
		reg("Value.Bool", func(m *M, a []value) value { return rvVal(a[0]) })
		reg("Value.Float", func(m *M, a []value) value { return rvVal(a[0]) })
		reg("Value.Bytes", func(m *M, a []value) value { return rvVal(a[0]) })
		reg("Value.Set", func(m *M, a []value) value {
			ty := rvType(a[1])
			if ty == nil {
				m.rtPanic("reflect: call of reflect.Value.Set on zero Value")
			}
			if !types.AssignableTo(ty, rvType(a[0])) {
				m.rtPanic("reflect.Set: value of type " + rtypeString(ty) + " is not assignable to type " + rtypeString(rvType(a[0])))
			}
			m.rvSet(a[0], m.assignTo(rvType(a[0]), ty, rvVal(a[1])))
			return nil
		})
		reg("Value.SetZero", func(m *M, a []value) value { m.rvSet(a[0], zero(rvType(a[0]))); return nil })
		reg("Value.SetInt", func(m *M, a []value) value {
			ii, ok := basicInt(rvType(a[0]))
			if !ok {
				m.rtPanic("reflect: call of reflect.Value.SetInt on " + rvType(a[0]).String() + " Value")
			}
			switch x := a[1].(type) {
			case int64:
				m.rvSet(a[0], mkInt(ii.norm(x)))
			case *Term:
				m.rvSet(a[0], fromInt(m.ctx.Trunc(x, ii.w), ii))
			}
			return nil
		})
		t["("+pk+".Value).SetUint"] = t["("+pk+".Value).SetInt"]
		reg("Value.SetString", func(m *M, a []value) value {
			if !isStr(rvType(a[0])) {
				m.rtPanic("reflect: call of reflect.Value.SetString on " + rvType(a[0]).String() + " Value")
			}
			m.rvSet(a[0], a[1])
			return nil
		})
		reg("Value.SetBool", func(m *M, a []value) value { m.rvSet(a[0], a[1]); return nil })
		reg("Value.SetFloat", func(m *M, a []value) value {
			fs, ok := isFloat(rvType(a[0]))
			if !ok {
				m.rtPanic("reflect: call of reflect.Value.SetFloat on " + rvType(a[0]).String() + " Value")
			}
			if f, ok := a[1].(float64); ok && fs == SF32 {
				m.rvSet(a[0], float64(float32(f)))
				return nil
			}
			if x, ok := a[1].(*Term); ok && fs == SF32 {
				m.rvSet(a[0], fromFloat(m.ctx.Gen(OFToF, SF32, 0, x)))
				return nil
			}
			m.rvSet(a[0], a[1])
			return nil
		})
		reg("Value.SetBytes", func(m *M, a []value) value { m.rvSet(a[0], a[1]); return nil })
		reg("Value.OverflowInt", func(m *M, a []value) value { return m.overflowInt(rvType(a[0]), a[1]) })
		reg("Value.OverflowUint", func(m *M, a []value) value {
			ii, _ := basicInt(rvType(a[0]))
			return m.overflowU(ii, a[1])
		})
		reg("Value.OverflowFloat", func(m *M, a []value) value {
			fs, _ := isFloat(rvType(a[0]))
			if fs == SF64 {
				return false
			}
			panic(pathAbort{"unsupported", "OverflowFloat float32"})
		})
		reg("Value.CanInt", func(m *M, a []value) value {
			ii, ok := basicInt(rvType(a[0]))
			return ok && ii.signed
		})
		reg("Value.CanUint", func(m *M, a []value) value {
			ii, ok := basicInt(rvType(a[0]))
			return ok && !ii.signed
		})
		reg("Value.CanFloat", func(m *M, a []value) value { _, ok := isFloat(rvType(a[0])); return ok })
		reg("Value.Convert", func(m *M, a []value) value {
			to := rt(a[1])
			return rv(to, m.convertTo(to, rvType(a[0]), rvVal(a[0])))
		})
		reg("Value.CanConvert", func(m *M, a []value) value { return types.ConvertibleTo(rvType(a[0]), rt(a[1])) })
		reg("Value.Comparable", func(m *M, a []value) value { return types.Comparable(rvType(a[0])) })
		reg("Value.Equal", func(m *M, a []value) value {
			return m.equals(toIface(rvType(a[0]), rvVal(a[0])), toIface(rvType(a[1]), rvVal(a[1])))
		})
		reg("Value.MapIndex", func(m *M, a []value) value {
			mt := rvType(a[0]).Underlying().(*types.Map)
			v, ok := m.mapGet(rvVal(a[0]).(*Map), m.assignTo(mt.Key(), rvType(a[1]), rvVal(a[1])))
			if !ok {
				return rvInvalid()
			}
			return rv(mt.Elem(), v)
		})
		reg("Value.SetMapIndex", func(m *M, a []value) value {
			mt := rvType(a[0]).Underlying().(*types.Map)
			k := m.assignTo(mt.Key(), rvType(a[1]), rvVal(a[1]))
			if rvType(a[2]) == nil {
				m.mapDelete(rvVal(a[0]).(*Map), k)
				return nil
			}
			m.mapSet(rvVal(a[0]).(*Map), k, m.assignTo(mt.Elem(), rvType(a[2]), rvVal(a[2])))
			return nil
		})
		reg("Value.MapKeys", func(m *M, a []value) value {
			mt := rvType(a[0]).Underlying().(*types.Map)
			var out []value
			if mp := rvVal(a[0]).(*Map); mp != nil {
				for i := range mp.keys {
					if mp.live[i] {
						out = append(out, rv(mt.Key(), mp.keys[i]))
					}
				}
			}
			return out
		})
		reg("Value.MapRange", func(m *M, a []value) value {
			p := new(value)
			mp, _ := rvVal(a[0]).(*Map)
			it := &mapIter{m: mp, pos: -1}
			if mp != nil {
				for i := range mp.keys {
					if mp.live[i] {
						it.order = append(it.order, i)
					}
				}
			}
			*p = structure{a[0], it}
			return p
		})
		reg("Value.UnsafePointer", func(m *M, a []value) value { return rvVal(a[0]) })
		reg("Value.Pointer", func(m *M, a []value) value {
			return m.addressOf(rvVal(a[0]))
		})
		reg("Value.UnsafeAddr", func(m *M, a []value) value {
			if p := rvAddr(a[0]); p != nil {
				return m.addressOf(p)
			}
			m.rtPanic("reflect.Value.UnsafeAddr of unaddressable value")
			return nil
		})
		reg("Value.NumMethod", func(m *M, a []value) value { return mkInt(int64(len(m.exportedMethods(rvType(a[0]))))) })
		reg("Value.MethodByName", func(m *M, a []value) value {
			ty := rvType(a[0])
			name, _ := a[1].(string)
			if sel := func() *types.Selection {
				canonMu.Lock()
				defer canonMu.Unlock()
				return m.p.prog.MethodSets.MethodSet(ty).Lookup(nil, name)
			}(); sel != nil {
				f := m.p.prog.MethodValue(sel)
				recv := rvVal(a[0])
				return rv(sel.Type(), native{"method", func(m *M, b []value) value {
					return m.call(f, append([]value{recv}, b...), nil)
				}})
			}
			return rvInvalid()
		})
		reg("Value.Call", func(m *M, a []value) value {
			return m.rvCall(rvVal(a[0]), rvType(a[0]).Underlying().(*types.Signature), a[1].([]value))
		})
	}
	t["(*reflect.MapIter).Next"] = func(m *M, fr *frame, a []value) (value, bool) {
		it := (*a[0].(*value)).(structure)[1].(*mapIter)
		old := it.pos
		m.onUndo(func() { it.pos = old })
		it.pos++
		return it.pos < len(it.order), true
	}
	t["(*reflect.MapIter).Key"] = func(m *M, fr *frame, a []value) (value, bool) {
		s := (*a[0].(*value)).(structure)
		it := s[1].(*mapIter)
		return rv(rvType(s[0]).Underlying().(*types.Map).Key(), it.m.keys[it.order[it.pos]]), true
	}
	t["(*reflect.MapIter).Value"] = func(m *M, fr *frame, a []value) (value, bool) {
		s := (*a[0].(*value)).(structure)
		it := s[1].(*mapIter)
		return rv(rvType(s[0]).Underlying().(*types.Map).Elem(), it.m.vals[it.order[it.pos]]), true
	}
	for _, n := range []string{"Kind", "Name", "String", "PkgPath", "Elem", "Key", "Len", "NumField", "Field", "Implements",
		"AssignableTo", "ConvertibleTo", "Comparable", "NumMethod", "Bits", "FieldByName"} {
		n := n
		t["(*reflect.rtype)."+n] = func(m *M, fr *frame, a []value) (value, bool) { return m.rtypeMethod(n, a), true }
	}
}

// addressOf numbers objects, for the identity comparisons that programs make with addresses.
func (m *M) addressOf(v value) value {
	var key any
	switch x := v.(type) {
	case *value:
		if x == nil {
			return mkInt(0)
		}
		key = x
	case *Map:
		if x == nil {
			return mkInt(0)
		}
		key = x
	case []value:
		if cap(x) == 0 {
			return mkInt(0)
		}
		key = &x[:1][0]
	default:
		panic(pathAbort{"unsupported", "reflect Pointer"})
	}
	ids, _ := m.side["addresses"].(map[any]int64)
	if ids == nil {
		ids = map[any]int64{}
		m.side["addresses"] = ids
	}
	if ids[key] == 0 {
		ids[key] = int64(len(ids)+1) * 64
	}
	return mkInt(ids[key])
}
