package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: a hash-consed DAG of SMT terms over Bool, bit-vectors and IEEE floats.

type Op uint8

const (
	OConst Op = iota // val (bits) ; bool: 0/1 ; fp: IEEE bits
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OConcat
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFRound // val: 0 RTZ (trunc), 1 RTN (floor), 2 RTP (ceil), 3 RNE
	OBitsToF
	OSToF // signed bv to fp
	OUToF
	OFToS // fp to signed bv (RTZ)
	OFToU
	OFToF
	OFRem
)

// Sort: 0 = Bool, 1..64 = BV width, 132 = FP32, 164 = FP64
type Sort uint8

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func (s Sort) isBV() bool { return s >= 1 && s <= 64 }
func (s Sort) isFP() bool { return s == SF32 || s == SF64 }
func (s Sort) String() string {
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", uint8(s))
}

type Term struct {
	op   Op
	sort Sort
	id   int32
	val  uint64
	name string
	args []*Term
	// evaluation cache
	evGen uint32
	evVal uint64
	// solver define flag: generation of the solver in which it is defined
	defGen uint32
}

type termKey struct {
	op         Op
	sort       Sort
	val        uint64
	a, b, c, d int32
	name       string
}

type Ctx struct {
	varsTab []*[]*Term
	tab     map[termKey]*Term
	next    int32
	True    *Term
	False   *Term
	vars    map[string]*Term
	varLst  []*Term
	evGen   uint32
	model   map[string]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, vars: map[string]*Term{}, model: map[string]uint64{}, evGen: 1}
	c.True = c.intern(OConst, SBool, 1, "")
	c.False = c.intern(OConst, SBool, 0, "")
	return c
}

func (c *Ctx) intern(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, val: val, name: name, a: -1, b: -1, c: -1, d: -1}
	n := len(args)
	if n > 0 {
		k.a = args[0].id
	}
	if n > 1 {
		k.b = args[1].id
	}
	if n > 2 {
		k.c = args[2].id
	}
	if n > 3 {
		k.d = args[3].id
		if n > 4 {
			var sb strings.Builder
			for _, a := range args[4:] {
				sb.WriteString(strconv.Itoa(int(a.id)))
				sb.WriteByte(',')
			}
			k.name = sb.String()
		}
	}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, id: c.next}
	if n > 0 {
		t.args = append([]*Term(nil), args...)
	}
	c.next++
	c.tab[k] = t
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Var(name string, s Sort) *Term {
	if t := c.vars[name]; t != nil {
		if t.sort != s {
			panic(engineErr("variable " + name + " used with two sorts"))
		}
		return t
	}
	t := c.intern(OVar, s, 0, name)
	c.vars[name] = t
	c.varLst = append(c.varLst, t)
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) BV(v uint64, w Sort) *Term { return c.intern(OConst, w, v&mask(w), "") }
func (c *Ctx) F64(f float64) *Term       { return c.intern(OConst, SF64, math.Float64bits(f), "") }
func (c *Ctx) F32(f float32) *Term {
	return c.intern(OConst, SF32, uint64(math.Float32bits(f)), "")
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.intern(ONot, SBool, 0, "", a)
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, c.True, c.False, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, c.False, c.True, as) }

func (c *Ctx) nary(op Op, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	var seen map[*Term]bool
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op && len(out)+len(t.args) < 64 {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if len(out) > 8 && seen == nil {
			seen = map[*Term]bool{}
			for _, x := range out {
				seen[x] = true
			}
		}
		if seen != nil {
			if seen[t] {
				return true
			}
			if t.op == ONot && seen[t.args[0]] {
				return false
			}
			seen[t] = true
		} else {
			for _, x := range out {
				if x == t {
					return true
				}
				if (t.op == ONot && t.args[0] == x) || (x.op == ONot && x.args[0] == t) {
					return false
				}
			}
		}
		out = append(out, t)
		return true
	}
	for _, t := range as {
		if !add(t) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.intern(op, SBool, 0, "", out...)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if g.op == OConst {
		if g.val == 1 {
			return a
		}
		return b
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.True {
			return c.Or(g, b)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
		if b == c.False {
			return c.And(g, a)
		}
	}
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(g, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == g {
		b = b.args[2]
	}
	return c.intern(OIte, a.sort, 0, "", g, a, b)
}

func iteLeavesConst(t *Term, depth int) bool {
	if t.op == OConst {
		return true
	}
	if t.op == OIte && depth > 0 {
		return iteLeavesConst(t.args[1], depth-1) && iteLeavesConst(t.args[2], depth-1)
	}
	return false
}

// mapIte applies a function to the constant leaves of an ite tree.
func (c *Ctx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.args[0], c.mapIte(t.args[1], f), c.mapIte(t.args[2], f))
	}
	return f(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b && !a.sort.isFP() {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.sort == SBool {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			in := a.args[0]
			if b.val&^mask(in.sort) != 0 {
				return c.False
			}
			return c.Eq(in, c.BV(b.val, in.sort))
		case OSExt:
			in := a.args[0]
			if uint64(sext(b.val&mask(in.sort), in.sort))&mask(a.sort) != b.val {
				return c.False
			}
			return c.Eq(in, c.BV(b.val, in.sort))
		case OIte:
			if iteLeavesConst(a, 6) {
				return c.mapIte(a, func(l *Term) *Term { return c.Bool(l.val == b.val) })
			}
		case OAdd:
			if a.args[1].op == OConst {
				return c.Eq(a.args[0], c.BV(b.val-a.args[1].val, a.sort))
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.intern(OEq, SBool, 0, "", a, b)
}

func (c *Ctx) cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Bool(evalCmp(op, a.val, b.val, a.sort))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// comparisons of zero-extended values with constants
	if a.op == OZExt && b.op == OConst {
		in := a.args[0]
		mx := mask(in.sort)
		signedNeg := (op == OSlt || op == OSle) && sext(b.val, b.sort) < 0
		if signedNeg {
			return c.False
		}
		switch op {
		case OUlt, OSlt:
			if b.val > mx {
				return c.True
			}
			return c.cmp(OUlt, in, c.BV(b.val, in.sort))
		case OUle, OSle:
			if b.val >= mx {
				return c.True
			}
			return c.cmp(OUle, in, c.BV(b.val, in.sort))
		}
	}
	if b.op == OZExt && a.op == OConst {
		in := b.args[0]
		mx := mask(in.sort)
		if (op == OSlt || op == OSle) && sext(a.val, a.sort) < 0 {
			return c.True
		}
		switch op {
		case OUlt, OSlt:
			if a.val >= mx {
				return c.False
			}
			return c.cmp(OUlt, c.BV(a.val, in.sort), in)
		case OUle, OSle:
			if a.val > mx {
				return c.False
			}
			return c.cmp(OUle, c.BV(a.val, in.sort), in)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return c.cmp(op, a.args[0], b.args[0])
	}
	if b.op == OConst && a.op == OIte && iteLeavesConst(a, 6) {
		return c.mapIte(a, func(l *Term) *Term { return c.Bool(evalCmp(op, l.val, b.val, a.sort)) })
	}
	if a.op == OConst && b.op == OIte && iteLeavesConst(b, 6) {
		return c.mapIte(b, func(l *Term) *Term { return c.Bool(evalCmp(op, a.val, l.val, a.sort)) })
	}
	if op == OUlt && b.op == OConst && b.val == 0 {
		return c.False
	}
	if op == OUle && a.op == OConst && a.val == 0 {
		return c.True
	}
	return c.intern(op, SBool, 0, "", a, b)
}

func evalCmp(op Op, a, b uint64, w Sort) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

func evalBin(op Op, a, b uint64, w Sort) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
			if w == 0 {
				b = 0
			}
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBin")
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.op == OConst && b.op == OConst {
		return c.BV(evalBin(op, a.val, b.val, w), w)
	}
	if b.op == OConst {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
		case OMul, OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
			if op == OMul && b.val == 0 {
				return b
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if op == OSub {
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		}
		if op == OAdd && a.op == OAdd && a.args[1].op == OConst {
			return c.Bin(OAdd, a.args[0], c.BV(a.args[1].val+b.val, w))
		}
		if a.op == OIte && iteLeavesConst(a, 6) {
			return c.mapIte(a, func(l *Term) *Term { return c.BV(evalBin(op, l.val, b.val, w), w) })
		}
	}
	if a.op == OConst {
		switch op {
		case OAdd, OMul, OBAnd, OBOr, OBXor:
			return c.Bin(op, b, a)
		}
		if a.val == 0 && (op == OShl || op == OLShr || op == OAShr) {
			return a
		}
		if b.op == OIte && iteLeavesConst(b, 6) {
			return c.mapIte(b, func(l *Term) *Term { return c.BV(evalBin(op, a.val, l.val, w), w) })
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.BV(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	return c.intern(op, w, 0, "", a, b)
}

func (c *Ctx) Un(op Op, a *Term) *Term {
	switch op {
	case OBNot:
		if a.op == OConst {
			return c.BV(^a.val, a.sort)
		}
	case ONeg:
		if a.op == OConst {
			return c.BV(-a.val, a.sort)
		}
	}
	return c.intern(op, a.sort, 0, "", a)
}

func (c *Ctx) ZExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.sort > w {
		return c.Trunc(a, w)
	}
	if a.op == OConst {
		return c.BV(a.val, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte && iteLeavesConst(a, 6) {
		return c.mapIte(a, func(l *Term) *Term { return c.BV(l.val, w) })
	}
	return c.intern(OZExt, w, 0, "", a)
}

func (c *Ctx) SExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.sort > w {
		return c.Trunc(a, w)
	}
	if a.op == OConst {
		return c.BV(uint64(sext(a.val, a.sort)), w)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte && iteLeavesConst(a, 6) {
		return c.mapIte(a, func(l *Term) *Term { return c.BV(uint64(sext(l.val, l.sort)), w) })
	}
	return c.intern(OSExt, w, 0, "", a)
}

func (c *Ctx) Trunc(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val, w)
	}
	if a.op == OZExt || a.op == OSExt {
		in := a.args[0]
		if in.sort == w {
			return in
		}
		if in.sort > w {
			return c.Trunc(in, w)
		}
		if a.op == OZExt {
			return c.ZExt(in, w)
		}
		return c.SExt(in, w)
	}
	if a.op == OIte && iteLeavesConst(a, 6) {
		return c.mapIte(a, func(l *Term) *Term { return c.BV(l.val, w) })
	}
	return c.intern(OExtract, w, uint64(w-1)<<8, "", a)
}

// ---- floats

func fbits(s Sort, f float64) uint64 {
	if s == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func fval(s Sort, b uint64) float64 {
	if s == SF32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

func evalF(op Op, s Sort, a, b float64) float64 {
	switch op {
	case OFAdd:
		if s == SF32 {
			return float64(float32(a) + float32(b))
		}
		return a + b
	case OFSub:
		if s == SF32 {
			return float64(float32(a) - float32(b))
		}
		return a - b
	case OFMul:
		if s == SF32 {
			return float64(float32(a) * float32(b))
		}
		return a * b
	case OFDiv:
		if s == SF32 {
			return float64(float32(a) / float32(b))
		}
		return a / b
	}
	panic("evalF")
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.intern(OConst, a.sort, fbits(a.sort, evalF(op, a.sort, fval(a.sort, a.val), fval(a.sort, b.val))), "")
	}
	return c.intern(op, a.sort, 0, "", a, b)
}
func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		x, y := fval(a.sort, a.val), fval(b.sort, b.val)
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		case OFEq:
			return c.Bool(x == y)
		}
	}
	return c.intern(op, SBool, 0, "", a, b)
}

func (c *Ctx) Gen(op Op, s Sort, val uint64, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if a.op != OConst {
			all = false
		}
	}
	t := &Term{op: op, sort: s, val: val, args: args}
	if all {
		return c.intern(OConst, s, c.evalNode(t, func(x *Term) uint64 { return x.val }), "")
	}
	return c.intern(op, s, val, "", args...)
}

// ---- evaluation

func (c *Ctx) SetModel(m map[string]uint64) {
	c.model = m
	c.evGen++
}

func (c *Ctx) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == c.evGen {
		return t.evVal
	}
	var v uint64
	if t.op == OVar {
		v = c.model[t.name] & mask(maxSort(t.sort))
	} else if t.op == OIte {
		if c.Eval(t.args[0]) == 1 {
			v = c.Eval(t.args[1])
		} else {
			v = c.Eval(t.args[2])
		}
	} else if t.op == OAnd {
		v = 1
		for _, a := range t.args {
			if c.Eval(a) == 0 {
				v = 0
				break
			}
		}
	} else if t.op == OOr {
		v = 0
		for _, a := range t.args {
			if c.Eval(a) == 1 {
				v = 1
				break
			}
		}
	} else {
		v = c.evalNode(t, c.Eval)
	}
	t.evGen = c.evGen
	t.evVal = v
	return v
}

func maxSort(s Sort) Sort {
	if s == SBool {
		return 1
	}
	if s.isFP() {
		return 64
	}
	return s
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) evalNode(t *Term, ev func(*Term) uint64) uint64 {
	a := t.args
	switch t.op {
	case ONot:
		return 1 - ev(a[0])
	case OEq:
		return b2u(ev(a[0]) == ev(a[1]))
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		return evalBin(t.op, ev(a[0]), ev(a[1]), t.sort)
	case OBNot:
		return ^ev(a[0]) & mask(t.sort)
	case ONeg:
		return -ev(a[0]) & mask(t.sort)
	case OUlt, OUle, OSlt, OSle:
		return b2u(evalCmp(t.op, ev(a[0]), ev(a[1]), a[0].sort))
	case OExtract:
		lo := t.val & 0xff
		return (ev(a[0]) >> lo) & mask(t.sort)
	case OZExt:
		return ev(a[0])
	case OSExt:
		return uint64(sext(ev(a[0]), a[0].sort)) & mask(t.sort)
	case OFAdd, OFSub, OFMul, OFDiv:
		return fbits(t.sort, evalF(t.op, t.sort, fval(t.sort, ev(a[0])), fval(t.sort, ev(a[1]))))
	case OFNeg:
		return fbits(t.sort, -fval(t.sort, ev(a[0])))
	case OFAbs:
		return fbits(t.sort, math.Abs(fval(t.sort, ev(a[0]))))
	case OFLt:
		return b2u(fval(a[0].sort, ev(a[0])) < fval(a[0].sort, ev(a[1])))
	case OFLe:
		return b2u(fval(a[0].sort, ev(a[0])) <= fval(a[0].sort, ev(a[1])))
	case OFEq:
		return b2u(fval(a[0].sort, ev(a[0])) == fval(a[0].sort, ev(a[1])))
	case OFIsNaN:
		return b2u(math.IsNaN(fval(a[0].sort, ev(a[0]))))
	case OFIsInf:
		return b2u(math.IsInf(fval(a[0].sort, ev(a[0])), 0))
	case OFRound:
		f := fval(t.sort, ev(a[0]))
		switch t.val {
		case 0:
			f = math.Trunc(f)
		case 1:
			f = math.Floor(f)
		case 2:
			f = math.Ceil(f)
		default:
			f = math.RoundToEven(f)
		}
		return fbits(t.sort, f)
	case OBitsToF:
		return ev(a[0])
	case OSToF:
		if t.sort == SF32 {
			return fbits(t.sort, float64(float32(sext(ev(a[0]), a[0].sort))))
		}
		return fbits(t.sort, float64(sext(ev(a[0]), a[0].sort)))
	case OUToF:
		if t.sort == SF32 {
			return fbits(t.sort, float64(float32(ev(a[0]))))
		}
		return fbits(t.sort, float64(ev(a[0])))
	case OFToS:
		return uint64(int64(fval(a[0].sort, ev(a[0])))) & mask(t.sort)
	case OFToU:
		return uint64(fval(a[0].sort, ev(a[0]))) & mask(t.sort)
	case OFToF:
		return fbits(t.sort, fval(a[0].sort, ev(a[0])))
	}
	panic(engineErr(fmt.Sprintf("evalNode op %d", t.op)))
}

// ---- printing

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OFRem: "fp.rem",
}

func constStr(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.sort == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case t.sort == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	case t.sort%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort)
}

func opHead(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OZExt:
		return fmt.Sprintf("(_ zero_extend %d)", t.sort-t.args[0].sort)
	case OSExt:
		return fmt.Sprintf("(_ sign_extend %d)", t.sort-t.args[0].sort)
	case OFRound:
		return "fp.roundToIntegral " + []string{"RTZ", "RTN", "RTP", "RNE"}[t.val]
	case OBitsToF:
		if t.sort == SF32 {
			return "(_ to_fp 8 24)"
		}
		return "(_ to_fp 11 53)"
	case OSToF, OFToF:
		if t.sort == SF32 {
			return "(_ to_fp 8 24) RNE"
		}
		return "(_ to_fp 11 53) RNE"
	case OUToF:
		if t.sort == SF32 {
			return "(_ to_fp_unsigned 8 24) RNE"
		}
		return "(_ to_fp_unsigned 11 53) RNE"
	case OFToS:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.sort)
	case OFToU:
		return fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.sort)
	}
	return opNames[t.op]
}

func quoteSym(s string) string { return "|" + s + "|" }

var _ = bits.Len

// show prints a term as an s-expression to the given depth (debugging).
func (t *Term) show(d int) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opHead(t)
	for _, a := range t.args {
		s += " " + a.show(d-1)
	}
	return s + ")"
}
