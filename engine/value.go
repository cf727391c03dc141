package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Values of the interpreted program.
//
//	integers  int64 (normalised to the type's width and sign) or *Term (bit-vector)
//	booleans  bool or *Term
//	floats    float64 or *Term
//	strings   string or *SymStr (concrete length, symbolic bytes)
//	pointers  *value; slices []value; structs structure; arrays array; maps *Map; funcs *ssa.Function, *closure, *native
type value = any

type (
	structure []value
	array     []value
	tuple     []value
	iface     struct {
		t types.Type // canonical
		v value
	}
	closure struct {
		fn  *ssa.Function
		env []value
	}
	native struct {
		name string
		fn   func(m *M, args []value) value
	}
	SymStr struct {
		b []value // int64 or *Term of sort 8
	}
	// results of unsafe.StringData / unsafe.SliceData
	strData   struct{ s value }
	sliceData struct{ s []value }
	rtype     struct{ t types.Type } // dynamic value of reflect.Type
	engineErr string
)

func (e engineErr) Error() string { return string(e) }

type Map struct {
	keys []value
	vals []value
	live []bool
	idx  map[any]int
	n    int
	syms int // entries with symbolic keys
}

type mapIter struct {
	m     *Map
	order []int
	pos   int
}
type strIter struct {
	s   value
	pos int
}

type Chan struct {
	buf    []value
	closed bool
}

var nilFunc = (*ssa.Function)(nil)

// ---- canonical types

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonCache sync.Map

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonCache.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t2 := unaliasDeep(t)
	c := canonMap.At(t2)
	var ct types.Type
	if c == nil {
		canonMap.Set(t2, t2)
		ct = t2
	} else {
		ct = c.(types.Type)
	}
	canonCache.Store(t, ct)
	return ct
}

func unaliasDeep(t types.Type) types.Type { return types.Unalias(t) }

// ---- int helpers

type intInfo struct {
	w      Sort
	signed bool
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) norm(v int64) int64 {
	switch {
	case ii.w == 64:
		return v
	case ii.signed:
		sh := 64 - uint(ii.w)
		return v << sh >> sh
	default:
		return int64(uint64(v) & (1<<ii.w - 1))
	}
}

var smallInts [1024 + 256]value

func init() {
	for i := range smallInts {
		smallInts[i] = int64(i - 256)
	}
}

func mkInt(v int64) value {
	if v >= -256 && v < 1024 {
		return smallInts[v+256]
	}
	return v
}

func (m *M) intTerm(v value, w Sort) *Term {
	switch x := v.(type) {
	case int64:
		return m.ctx.BV(uint64(x), w)
	case *Term:
		return x
	}
	panic(engineErr(fmt.Sprintf("intTerm: %T", v)))
}

func (m *M) boolTerm(v value) *Term {
	switch x := v.(type) {
	case bool:
		return m.ctx.Bool(x)
	case *Term:
		return x
	}
	panic(engineErr(fmt.Sprintf("boolTerm: %T", v)))
}

func (m *M) floatTerm(v value, s Sort) *Term {
	switch x := v.(type) {
	case float64:
		if s == SF32 {
			return m.ctx.F32(float32(x))
		}
		return m.ctx.F64(x)
	case *Term:
		return x
	}
	panic(engineErr(fmt.Sprintf("floatTerm: %T", v)))
}

// fromTerm turns constant terms into concrete values.
func fromBool(t *Term) value {
	if t.op == OConst {
		return t.val == 1
	}
	return t
}
func fromInt(t *Term, ii intInfo) value {
	if t.op == OConst {
		if ii.signed {
			return mkInt(sext(t.val, t.sort))
		}
		return mkInt(int64(t.val))
	}
	return t
}
func fromFloat(t *Term) value {
	if t.op == OConst {
		return fval(t.sort, t.val)
	}
	return t
}

// ---- strings

func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(engineErr(fmt.Sprintf("strLen: %T", v)))
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		b := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = smallInts[int(s[i])+256]
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(engineErr(fmt.Sprintf("strBytes: %T", v)))
}

func strAt(v value, i int) value {
	switch s := v.(type) {
	case string:
		return smallInts[int(s[i])+256]
	case *SymStr:
		return s.b[i]
	}
	panic(engineErr("strAt"))
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic(engineErr("strSlice"))
}

func strConcat(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	xa, yb := strBytes(a), strBytes(b)
	out := make([]value, 0, len(xa)+len(yb))
	out = append(append(out, xa...), yb...)
	return &SymStr{out}
}

func (m *M) byteEq(a, b value) *Term {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return m.ctx.Bool(x == y)
	}
	return m.ctx.Eq(m.intTerm(a, 8), m.intTerm(b, 8))
}

func (m *M) strEq(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	var cs []*Term
	for i := 0; i < n; i++ {
		e := m.byteEq(strAt(a, i), strAt(b, i))
		if e == m.ctx.False {
			return false
		}
		cs = append(cs, e)
	}
	return fromBool(m.ctx.And(cs...))
}

// strLess builds the lexicographic comparison term (a < b).
func (m *M) strLess(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := m.ctx.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		p, q := m.intTerm(strAt(a, i), 8), m.intTerm(strAt(b, i), 8)
		r = m.ctx.Or(m.ctx.cmp(OUlt, p, q), m.ctx.And(m.ctx.Eq(p, q), r))
	}
	return fromBool(r)
}

// ---- zero values and copies

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return false
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return (*value)(nil)
		case types.UntypedNil:
			return nil
		}
		return smallInts[256]
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case structure, array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		panic(engineErr("zero of type parameter"))
	}
	panic(engineErr(fmt.Sprintf("zero: %T", t.Underlying())))
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		c := make(structure, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	case array:
		c := make(array, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	}
	return v
}

// store writes v through p, keeping the identity of nested fields.
func (m *M) store(p *value, v value) {
	switch x := v.(type) {
	case structure:
		dst, ok := (*p).(structure)
		if !ok || len(dst) != len(x) {
			m.set(p, copyVal(x))
			return
		}
		for i := range x {
			m.store(&dst[i], x[i])
		}
		return
	case array:
		dst, ok := (*p).(array)
		if !ok || len(dst) != len(x) {
			m.set(p, copyVal(x))
			return
		}
		for i := range x {
			m.store(&dst[i], x[i])
		}
		return
	}
	m.set(p, v)
}

type trailEntry struct {
	p    *value
	old  value
	undo func()
}

func (m *M) set(p *value, v value) {
	if m.logging {
		m.trail = append(m.trail, trailEntry{p: p, old: *p})
	}
	*p = v
}

func (m *M) onUndo(f func()) {
	if m.logging {
		m.trail = append(m.trail, trailEntry{undo: f})
	}
}

func (m *M) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		e := &m.trail[i]
		if e.undo != nil {
			e.undo()
		} else {
			*e.p = e.old
		}
		*e = trailEntry{}
	}
	m.trail = m.trail[:n]
}

// ---- maps

// hashKey gives a comparable Go key for a fully concrete value, or ok=false.
func hashKey(v value) (any, bool) {
	switch x := v.(type) {
	case int64, bool, string, float64, complex128, *value, *Map, *Chan, rtype:
		return x, true
	case iface:
		if x.t == nil {
			return iface{}, true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case structure:
		return hashSeq("s", x)
	case array:
		return hashSeq("a", x)
	case *Term, *SymStr:
		return nil, false
	case *ssa.Function:
		if x == nil {
			return nil, true
		}
	case native:
		return x.name, true
	}
	panic(engineErr(fmt.Sprintf("hashKey: %T", v)))
}

func hashSeq(tag string, xs []value) (any, bool) {
	var sb strings.Builder
	sb.WriteString(tag)
	for _, e := range xs {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		writeKey(&sb, k)
		sb.WriteByte(0)
	}
	return sb.String(), true
}

func writeKey(sb *strings.Builder, k any) {
	switch x := k.(type) {
	case int64:
		sb.WriteByte('i')
		sb.WriteString(strconv.FormatInt(x, 10))
	case string:
		sb.WriteByte('S')
		sb.WriteString(strconv.Itoa(len(x)))
		sb.WriteByte(':')
		sb.WriteString(x)
	case bool:
		fmt.Fprintf(sb, "b%v", x)
	case float64:
		fmt.Fprintf(sb, "f%x", math.Float64bits(x))
	case *value:
		fmt.Fprintf(sb, "p%x", uintptr(unsafe.Pointer(x)))
	case *Map:
		fmt.Fprintf(sb, "m%p", x)
	case rtype:
		fmt.Fprintf(sb, "r%p", x.t)
	case iface:
		sb.WriteString("nil")
	case [2]any:
		fmt.Fprintf(sb, "I%p", x[0])
		writeKey(sb, x[1])
	default:
		fmt.Fprintf(sb, "?%v", x)
	}
}

func newMap() *Map { return &Map{idx: map[any]int{}} }

// find returns the entry index of key k or -1; may fork on symbolic equality.
func (m *M) mapFind(mp *Map, k value) int {
	if mp == nil {
		return -1
	}
	hk, ok := hashKey(k)
	if ok {
		if i, ok := mp.idx[hk]; ok {
			return i
		}
		if mp.syms == 0 {
			return -1
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		if ok {
			if _, c := hashKey(mp.keys[i]); c {
				continue
			}
		}
		if m.branchV(m.equals(mp.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(mp *Map, k value) (value, bool) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return nil, false
	}
	return mp.vals[i], true
}

func (m *M) mapSet(mp *Map, k, v value) {
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	v = copyVal(v)
	i := m.mapFind(mp, k)
	if i >= 0 {
		old := mp.vals[i]
		m.onUndo(func() { mp.vals[i] = old })
		mp.vals[i] = v
		return
	}
	k = copyVal(k)
	hk, ok := hashKey(k)
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.live = append(mp.live, true)
	if ok {
		mp.idx[hk] = len(mp.keys) - 1
	} else {
		mp.syms++
	}
	mp.n++
	if m.logging {
		m.onUndo(func() {
			l := len(mp.keys) - 1
			mp.keys, mp.vals, mp.live = mp.keys[:l], mp.vals[:l], mp.live[:l]
			if ok {
				delete(mp.idx, hk)
			} else {
				mp.syms--
			}
			mp.n--
		})
	}
}

func (m *M) mapDelete(mp *Map, k value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	hk, ok := hashKey(mp.keys[i])
	mp.live[i] = false
	mp.n--
	if ok {
		delete(mp.idx, hk)
	} else {
		mp.syms--
	}
	m.onUndo(func() {
		mp.live[i] = true
		mp.n++
		if ok {
			mp.idx[hk] = i
		} else {
			mp.syms++
		}
	})
}

func (m *M) mapClear(mp *Map) {
	if mp == nil {
		return
	}
	old := *mp
	m.onUndo(func() { *mp = old })
	*mp = *newMap()
}

func (mp *Map) Len() int {
	if mp == nil {
		return 0
	}
	return mp.n
}

// ---- equality

func (m *M) andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromBool(m.ctx.And(a.(*Term), b.(*Term)))
}

func (m *M) notV(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return fromBool(m.ctx.Not(a.(*Term)))
}

// equals compares two values of the same static type (Go ==).
func (m *M) equals(a, b value) value {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		y := b.(*Term)
		return fromBool(m.ctx.Eq(y, m.ctx.BV(uint64(x), y.sort)))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return fromBool(m.ctx.Eq(b.(*Term), m.ctx.Bool(x)))
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.sort.isFP() {
				return fromBool(m.ctx.FCmp(OFEq, x, y))
			}
			return fromBool(m.ctx.Eq(x, y))
		case float64:
			return fromBool(m.ctx.FCmp(OFEq, x, m.floatTerm(y, x.sort)))
		}
		return m.equals(b, a)
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		y := b.(*Term)
		return fromBool(m.ctx.FCmp(OFEq, m.floatTerm(x, y.sort), y))
	case complex128:
		return x == b.(complex128)
	case string, *SymStr:
		return m.strEq(a, b)
	case *value:
		if y, ok := b.(*value); ok {
			return x == y
		}
		return false // sliceData etc: distinct kinds only compared with nil
	case *Map:
		return x == b.(*Map)
	case *Chan:
		return x == b.(*Chan)
	case []value:
		y := b.([]value)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case structure:
		y := b.(structure)
		var r value = true
		for i := range x {
			r = m.andV(r, m.equals(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		y := b.(array)
		var r value = true
		for i := range x {
			r = m.andV(r, m.equals(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(engineErr(fmt.Sprintf("iface compared with %T", b)))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.equals(x.v, y.v)
	case rtype:
		y, ok := b.(rtype)
		return ok && x.t == y.t
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case *closure:
		y, ok := b.(*closure)
		return ok && x == y
	case native:
		y, ok := b.(native)
		return ok && x.name == y.name
	case sliceData:
		if y, ok := b.(sliceData); ok {
			return len(x.s) > 0 && len(y.s) > 0 && &x.s[0] == &y.s[0]
		}
		return false
	case strData:
		return false
	case nil:
		return b == nil
	}
	panic(engineErr(fmt.Sprintf("equals: %T", a)))
}
