package main

import (
	"math/big"
	"sort"
)

// Comparisons of linear combinations of small values (decimal digits, mostly) are rewritten, under the current path condition, into
// comparisons of the small values themselves: 10*m+d < 10*q+r  <=>  m < q or m = q and d < r when d stays below 10. Bit-blasted
// multiplication chains would otherwise stall the solver. Every step is exact; when a term might wrap nothing is rewritten.

type lterm struct {
	u *Term
	k *big.Int
}

type poly struct {
	ts []lterm
	c  *big.Int
}

type urange struct {
	d        bset
	min, max uint64
}

var bigOne = big.NewInt(1)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// unitRange returns the unsigned range of a term over one small variable.
func (m *M) unitRange(t *Term) (uint64, uint64, bool) {
	vs := m.ctx.varsOf(t)
	if len(vs) != 1 || !small(vs[0]) {
		return 0, 0, false
	}
	d, _ := m.domain(vs[0])
	if r, ok := m.rangeTab[t]; ok && r.d == d {
		return r.min, r.max, true
	}
	if d.empty() {
		return 0, 0, false
	}
	old := m.ctx.model
	lo, hi := ^uint64(0), uint64(0)
	for x := uint64(0); x < 256; x++ {
		if !d.has(x) {
			continue
		}
		m.ctx.SetModel(map[string]uint64{vs[0].name: x})
		v := m.ctx.Eval(t)
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	m.ctx.SetModel(old)
	if m.rangeTab == nil {
		m.rangeTab = map[*Term]urange{}
	}
	m.rangeTab[t] = urange{d, lo, hi}
	return lo, hi, true
}

func constPoly(v *big.Int) *poly { return &poly{c: v} }

func (p *poly) add(q *poly, k *big.Int) *poly {
	r := &poly{c: new(big.Int).Add(p.c, new(big.Int).Mul(q.c, k))}
	r.ts = append(r.ts, p.ts...)
	for _, t := range q.ts {
		kk := new(big.Int).Mul(t.k, k)
		found := false
		for i := range r.ts {
			if r.ts[i].u == t.u {
				r.ts[i] = lterm{t.u, new(big.Int).Add(r.ts[i].k, kk)}
				found = true
				break
			}
		}
		if !found {
			r.ts = append(r.ts, lterm{t.u, kk})
		}
	}
	out := r.ts[:0:0]
	for _, t := range r.ts {
		if t.k.Sign() != 0 {
			out = append(out, t)
		}
	}
	r.ts = out
	return r
}

func (m *M) prange(p *poly) (lo, hi *big.Int, ok bool) {
	lo, hi = new(big.Int).Set(p.c), new(big.Int).Set(p.c)
	for _, t := range p.ts {
		a, b, ok := m.unitRange(t.u)
		if !ok {
			return nil, nil, false
		}
		x := new(big.Int).Mul(t.k, new(big.Int).SetUint64(a))
		y := new(big.Int).Mul(t.k, new(big.Int).SetUint64(b))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi, true
}

func within(lo, hi, a, b *big.Int) bool { return lo.Cmp(a) >= 0 && hi.Cmp(b) < 0 }

// linear returns a polynomial congruent to t modulo 2^width.
func (m *M) linear(t *Term, depth int) *poly {
	if depth > 60 {
		return nil
	}
	if t.op == OConst {
		v := big.NewInt(sext(t.val, t.sort))
		return constPoly(v)
	}
	if t.sort <= 8 {
		if _, _, ok := m.unitRange(t); ok {
			return &poly{c: new(big.Int), ts: []lterm{{t, bigOne}}}
		}
		return nil
	}
	switch t.op {
	case OZExt, OSExt:
		x := t.args[0]
		p := m.linear(x, depth+1)
		if p == nil {
			return nil
		}
		lo, hi, ok := m.prange(p)
		if !ok {
			return nil
		}
		w := uint(x.sort)
		if t.op == OZExt {
			if !within(lo, hi, new(big.Int), pow2(w)) {
				return nil
			}
		} else if !within(lo, hi, new(big.Int).Neg(pow2(w-1)), pow2(w-1)) {
			return nil
		}
		return p
	case OAdd, OSub:
		p := m.linear(t.args[0], depth+1)
		if p == nil {
			return nil
		}
		q := m.linear(t.args[1], depth+1)
		if q == nil {
			return nil
		}
		k := bigOne
		if t.op == OSub {
			k = big.NewInt(-1)
		}
		return p.add(q, k)
	case ONeg:
		p := m.linear(t.args[0], depth+1)
		if p == nil {
			return nil
		}
		return constPoly(new(big.Int)).add(p, big.NewInt(-1))
	case OMul:
		for i := 0; i < 2; i++ {
			if t.args[i].op == OConst {
				p := m.linear(t.args[1-i], depth+1)
				if p == nil {
					return nil
				}
				return constPoly(new(big.Int)).add(p, big.NewInt(sext(t.args[i].val, t.sort)))
			}
		}
	case OShl:
		if t.args[1].op == OConst && t.args[1].val < uint64(t.sort) {
			p := m.linear(t.args[0], depth+1)
			if p == nil {
				return nil
			}
			return constPoly(new(big.Int)).add(p, pow2(uint(t.args[1].val)))
		}
	case OAShr:
		s := t.args[0]
		if s.op == OShl && t.args[1].op == OConst && s.args[1] == t.args[1] && t.args[1].val < uint64(t.sort) {
			p := m.linear(s.args[0], depth+1)
			if p == nil {
				return nil
			}
			lo, hi, ok := m.prange(p)
			w := uint(t.sort) - uint(t.args[1].val)
			if ok && within(lo, hi, new(big.Int).Neg(pow2(w-1)), pow2(w-1)) {
				return p
			}
		}
	case OExtract:
		if t.val&0xff == 0 {
			return m.linear(t.args[0], depth+1)
		}
	}
	return nil
}

// split finds g, the leading part divided by g, and the rest, such that the rest spans less than g.
func (m *M) split(p *poly) (g *big.Int, lead, rest *poly, rl *big.Int, ok bool) {
	ts := append([]lterm(nil), p.ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].k.CmpAbs(ts[j].k) > 0 })
	g = new(big.Int)
	for i := 0; i < len(ts)-1; i++ {
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(ts[i].k))
		r := &poly{c: new(big.Int), ts: ts[i+1:]}
		lo, hi, ok := m.prange(r)
		if !ok {
			return nil, nil, nil, nil, false
		}
		if new(big.Int).Sub(hi, lo).Cmp(g) < 0 {
			l := &poly{c: new(big.Int)}
			for _, t := range ts[:i+1] {
				l.ts = append(l.ts, lterm{t.u, new(big.Int).Quo(t.k, g)})
			}
			return g, l, r, lo, true
		}
	}
	return nil, nil, nil, nil, false
}

func floorDiv(a, b *big.Int) (*big.Int, *big.Int) {
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, b, r) // Euclidean; b > 0
	return q, r
}

func (p *poly) plus(c *big.Int) *poly { return &poly{ts: p.ts, c: new(big.Int).Add(p.c, c)} }

func (m *M) foldFixed(p *poly) *poly {
	q := &poly{c: new(big.Int).Set(p.c)}
	for _, t := range p.ts {
		a, b, ok := m.unitRange(t.u)
		if !ok {
			return nil
		}
		if a == b {
			q.c.Add(q.c, new(big.Int).Mul(t.k, new(big.Int).SetUint64(a)))
		} else {
			q.ts = append(q.ts, t)
		}
	}
	return q
}

// ltZero returns p < 0 over the small values, or nil.
func (m *M) ltZero(p *poly) *Term {
	p = m.foldFixed(p)
	if p == nil {
		return nil
	}
	lo, hi, ok := m.prange(p)
	if !ok {
		return nil
	}
	if hi.Sign() < 0 {
		return m.ctx.True
	}
	if lo.Sign() >= 0 {
		return m.ctx.False
	}
	if len(p.ts) == 1 {
		u, k := p.ts[0].u, p.ts[0].k
		if k.Sign() > 0 {
			// u < -c/k, i.e. u <= ceil(-c/k)-1
			b, r := floorDiv(new(big.Int).Neg(p.c), k)
			if r.Sign() > 0 {
				b.Add(b, bigOne)
			}
			return m.ctx.cmp(OUlt, u, m.ctx.BV(b.Uint64(), u.sort))
		}
		b, _ := floorDiv(p.c, new(big.Int).Neg(k))
		return m.ctx.Not(m.ctx.cmp(OUle, u, m.ctx.BV(b.Uint64(), u.sort)))
	}
	g, lead, rest, rl, ok := m.split(p)
	if !ok {
		return nil
	}
	q, rem := floorDiv(new(big.Int).Sub(new(big.Int).Neg(p.c), rl), g)
	l := lead.plus(new(big.Int).Neg(q))
	a := m.ltZero(l)
	b := m.eqZero(l)
	c := m.ltZero(rest.plus(new(big.Int).Neg(new(big.Int).Add(rl, rem))))
	if a == nil || b == nil || c == nil {
		return nil
	}
	return m.ctx.Or(a, m.ctx.And(b, c))
}

func (m *M) eqZero(p *poly) *Term {
	p = m.foldFixed(p)
	if p == nil {
		return nil
	}
	lo, hi, ok := m.prange(p)
	if !ok {
		return nil
	}
	if hi.Sign() < 0 || lo.Sign() > 0 {
		return m.ctx.False
	}
	if len(p.ts) == 0 {
		return m.ctx.True
	}
	if len(p.ts) == 1 {
		u, k := p.ts[0].u, p.ts[0].k
		b, r := new(big.Int).QuoRem(new(big.Int).Neg(p.c), k, new(big.Int))
		if r.Sign() != 0 {
			return m.ctx.False
		}
		return m.ctx.Eq(u, m.ctx.BV(b.Uint64(), u.sort))
	}
	g, lead, rest, rl, ok := m.split(p)
	if !ok {
		return nil
	}
	q, rem := floorDiv(new(big.Int).Sub(new(big.Int).Neg(p.c), rl), g)
	a := m.eqZero(lead.plus(new(big.Int).Neg(q)))
	b := m.eqZero(rest.plus(new(big.Int).Neg(new(big.Int).Add(rl, rem))))
	if a == nil || b == nil {
		return nil
	}
	return m.ctx.And(a, b)
}

// signTrunc matches the ways the compiler and reflect narrow a word and widen it again: the inner term and the remaining width.
func signTrunc(t *Term) (*Term, uint) {
	if t.op == OAShr && t.args[1].op == OConst && t.args[0].op == OShl && t.args[0].args[1] == t.args[1] && t.args[1].val < uint64(t.sort) {
		return t.args[0].args[0], uint(t.sort) - uint(t.args[1].val)
	}
	if t.op == OSExt && t.args[0].op == OExtract && t.args[0].val&0xff == 0 && t.args[0].args[0].sort == t.sort {
		return t.args[0].args[0], uint(t.args[0].sort)
	}
	return nil, 0
}

// simp rewrites a predicate into an equivalent one under the current path condition.
func (m *M) simp(t *Term) *Term {
	switch t.op {
	case ONot:
		return m.ctx.Not(m.simp(t.args[0]))
	case OAnd, OOr:
		if len(t.args) > 8 {
			return t
		}
		changed := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = m.simp(a)
			changed = changed || args[i] != a
		}
		if !changed {
			return t
		}
		if t.op == OAnd {
			return m.ctx.And(args...)
		}
		return m.ctx.Or(args...)
	case OFEq:
		if m.fsame(t.args[0], t.args[1]) {
			return m.ctx.True
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		a, b := t.args[0], t.args[1]
		w := a.sort
		if w < 16 || w > 64 || !(arith(a) || arith(b)) {
			return t
		}
		if t.op == OEq && b.op == OConst && b.val == 0 && a.op == OLShr && a.args[1].op == OConst && a.args[1].val < uint64(w) {
			return m.simp(m.ctx.cmp(OUlt, a.args[0], m.ctx.BV(1<<a.args[1].val, w)))
		}
		if t.op == OEq {
			for i := 0; i < 2; i++ {
				x, tw := signTrunc(t.args[i])
				if x == nil || x != t.args[1-i] {
					continue
				}
				p := m.linear(x, 0)
				if p == nil {
					continue
				}
				lo, hi, ok := m.prange(p)
				if !ok || !within(lo, hi, new(big.Int).Neg(pow2(uint(w)-1)), pow2(uint(w)-1)) {
					continue
				}
				low := m.ltZero(p.plus(pow2(tw - 1)))                    // x < -2^(tw-1)
				high := m.ltZero(p.plus(new(big.Int).Neg(pow2(tw - 1)))) // x < 2^(tw-1)
				if low != nil && high != nil {
					return m.ctx.And(m.ctx.Not(low), high)
				}
			}
		}
		p := m.linear(a, 0)
		if p == nil {
			return t
		}
		q := m.linear(b, 0)
		if q == nil {
			return t
		}
		d := p.add(q, big.NewInt(-1))
		var r *Term
		switch t.op {
		case OEq:
			lo, hi, ok := m.prange(d)
			if !ok || !within(lo, hi, new(big.Int).Add(new(big.Int).Neg(pow2(uint(w))), bigOne), pow2(uint(w))) {
				return t
			}
			r = m.eqZero(d)
		default:
			min, max := new(big.Int), pow2(uint(w))
			if t.op == OSlt || t.op == OSle {
				min, max = new(big.Int).Neg(pow2(uint(w)-1)), pow2(uint(w)-1)
			} else {
				// constants are read as signed: bring them into the unsigned range
				for _, x := range []*poly{p, q} {
					if len(x.ts) == 0 && x.c.Sign() < 0 {
						x.c = new(big.Int).Add(x.c, max)
					}
				}
				d = p.add(q, big.NewInt(-1))
			}
			lo, hi, ok := m.prange(p)
			if !ok || !within(lo, hi, min, max) {
				return t
			}
			if lo, hi, ok = m.prange(q); !ok || !within(lo, hi, min, max) {
				return t
			}
			if t.op == OUle || t.op == OSle {
				d = d.plus(big.NewInt(-1))
			}
			r = m.ltZero(d)
		}
		if r != nil {
			return r
		}
	}
	return t
}

func arith(t *Term) bool {
	switch t.op {
	case OAdd, OSub, OMul, ONeg, OShl, OAShr, OLShr:
		return true
	case OZExt, OSExt, OExtract:
		return arith(t.args[0]) || t.args[0].sort <= 8
	}
	return false
}

// fsame tells that two floating-point terms are certainly equal (and not NaN): the same finite operations on equal integers.
func (m *M) fsame(a, b *Term) bool {
	if a.op == OConst && b.op == OConst {
		return m.ctx.cmpF(a, b)
	}
	for _, x := range []*Term{a, b} {
		if x.op == OIte {
			y := b
			if x == b {
				y = a
			}
			switch m.simp(x.args[0]) {
			case m.ctx.True:
				return m.fsame(x.args[1], y)
			case m.ctx.False:
				return m.fsame(x.args[2], y)
			}
			return false
		}
	}
	switch a.op {
	case OFNeg:
		return b.op == OFNeg && m.fsame(a.args[0], b.args[0])
	case OFDiv, OFMul:
		return b.op == a.op && a.args[1] == b.args[1] && a.args[1].op == OConst && m.ctx.finiteNonzero(a.args[1]) && m.fsame(a.args[0], b.args[0])
	case OSToF, OUToF:
		if b.op != OSToF && b.op != OUToF {
			return false
		}
		x, y := a.args[0], b.args[0]
		if x.sort != y.sort {
			return false
		}
		if a.op != b.op {
			p := m.linear(x, 0)
			if p == nil {
				return false
			}
			lo, hi, ok := m.prange(p)
			if !ok || !within(lo, hi, new(big.Int), pow2(uint(x.sort)-1)) {
				return false
			}
		}
		return x == y || m.simp(m.ctx.Eq(x, y)) == m.ctx.True
	}
	return false
}

func (c *Ctx) cmpF(a, b *Term) bool {
	x, y := fval(a.sort, a.val), fval(b.sort, b.val)
	return x == y
}

func (c *Ctx) finiteNonzero(t *Term) bool {
	f := fval(t.sort, t.val)
	return f != 0 && f-f == 0
}
