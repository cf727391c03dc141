package main

import (
	"fmt"
	"sort"
	"strings"
)

// Queries are answered in three steps: an exact byte-domain step for constraints over one small variable, a cache of earlier answers,
// and the solver on the part of the path condition that shares variables with the query.

type bset [4]uint64

func (b *bset) and(o *bset) bset {
	return bset{b[0] & o[0], b[1] & o[1], b[2] & o[2], b[3] & o[3]}
}
func (b *bset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b *bset) has(v uint64) bool {
	return v < 256 && b[v>>6]>>(v&63)&1 == 1
}
func (b *bset) first() uint64 {
	for i, w := range b {
		for k := 0; k < 64; k++ {
			if w>>k&1 == 1 {
				return uint64(i*64 + k)
			}
		}
	}
	return 0
}

const manyVars = 100000

// varsOf returns the variables of t, ordered by id.
func (c *Ctx) varsOf(t *Term) []*Term {
	if t.op == OConst {
		return nil
	}
	if int(t.id) < len(c.varsTab) && c.varsTab[t.id] != nil {
		return *c.varsTab[t.id]
	}
	var out []*Term
	if t.op == OVar {
		out = []*Term{t}
	} else {
		for _, a := range t.args {
			av := c.varsOf(a)
			if len(av) == 0 {
				continue
			}
			if len(out) == 0 {
				out = av
				continue
			}
			out = mergeVars(out, av)
		}
	}
	for int(t.id) >= len(c.varsTab) {
		c.varsTab = append(c.varsTab, make([]*[]*Term, 4096)...)
	}
	c.varsTab[t.id] = &out
	return out
}

func mergeVars(a, b []*Term) []*Term {
	i, j := 0, 0
	same := true
	for j < len(b) {
		for i < len(a) && a[i].id < b[j].id {
			i++
		}
		if i >= len(a) || a[i] != b[j] {
			same = false
			break
		}
		j++
	}
	if same {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i >= len(a):
			out = append(out, b[j])
			j++
		case j >= len(b):
			out = append(out, a[i])
			i++
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

// bitsOf returns the set of values of the single small variable for which the predicate t holds.
func (m *M) bitsOf(t *Term, v *Term) *bset {
	if b, ok := m.bitsTab[t]; ok {
		return b
	}
	var b bset
	n := uint64(1) << v.sort
	if v.sort == SBool {
		n = 2
	}
	old := m.ctx.model
	for x := uint64(0); x < n; x++ {
		m.ctx.SetModel(map[string]uint64{v.name: x})
		if m.ctx.Eval(t) == 1 {
			b[x>>6] |= 1 << (x & 63)
		}
	}
	m.ctx.SetModel(old)
	m.bitsTab[t] = &b
	return &b
}

func small(v *Term) bool { return v.sort == SBool || (v.sort >= 1 && v.sort <= 8) }

func (m *M) addPC(t *Term) {
	i := len(m.pc)
	m.pc = append(m.pc, t)
	m.pcSet[t] = true
	for _, v := range m.ctx.varsOf(t) {
		m.pcIdx[v] = append(m.pcIdx[v], i)
	}
}

func (m *M) truncPC(n int) {
	for i := len(m.pc) - 1; i >= n; i-- {
		t := m.pc[i]
		delete(m.pcSet, t)
		for _, v := range m.ctx.varsOf(t) {
			l := m.pcIdx[v]
			m.pcIdx[v] = l[:len(l)-1]
		}
	}
	m.pc = m.pc[:n]
}

func fullBits(v *Term) bset {
	if v.sort == SBool {
		return bset{3}
	}
	n := uint64(1) << v.sort
	if n < 64 {
		return bset{1<<n - 1}
	}
	var b bset
	for i := uint64(0); i < n/64; i++ {
		b[i] = ^uint64(0)
	}
	return b
}

// domain returns the values the unary constraints leave to v, and whether other constraints mention v.
func (m *M) domain(v *Term) (bset, bool) {
	d := fullBits(v)
	multi := false
	for _, i := range m.pcIdx[v] {
		t := m.pc[i]
		if len(m.ctx.varsOf(t)) == 1 {
			d = d.and(m.bitsOf(t, v))
		} else {
			multi = true
		}
	}
	return d, multi
}

func (m *M) withVal(name string, x uint64) map[string]uint64 {
	out := make(map[string]uint64, len(m.ctx.model)+1)
	for k, v := range m.ctx.model {
		out[k] = v
	}
	out[name] = x
	return out
}

type cacheRes struct {
	r     SatResult
	model map[string]uint64
}

// query decides pc /\ extra; on Sat the model satisfies both.
func (m *M) query(extra *Term) (SatResult, map[string]uint64) {
	if extra == m.ctx.False {
		return Unsat, nil
	}
	vs := m.ctx.varsOf(extra)
	if len(vs) == 1 && small(vs[0]) {
		v := vs[0]
		d, multi := m.domain(v)
		d = d.and(m.bitsOf(extra, v))
		if d.empty() {
			m.domUnsat++
			m.audit(extra, vs, Unsat)
			return Unsat, nil
		}
		if !multi && m.modelOK {
			m.domSat++
			m.audit(extra, vs, Sat)
			x := m.ctx.model[v.name]
			if !d.has(x) {
				x = d.first()
			}
			return Sat, m.withVal(v.name, x)
		}
	}
	// equality of two small variables with disjoint domains
	if extra.op == OEq && len(vs) == 2 && extra.args[0].op == OVar && extra.args[1].op == OVar && small(vs[0]) && vs[0].sort == vs[1].sort {
		d0, m0 := m.domain(vs[0])
		d1, m1 := m.domain(vs[1])
		d := d0.and(&d1)
		if d.empty() {
			m.domUnsat++
			m.audit(extra, vs, Unsat)
			return Unsat, nil
		}
		if !m0 && !m1 && m.modelOK {
			m.domSat++
			m.audit(extra, vs, Sat)
			x := d.first()
			mm := m.withVal(vs[0].name, x)
			mm[vs[1].name] = x
			return Sat, mm
		}
	}
	if !m.modelOK {
		r, model := m.solver.Check(m.pc, extra)
		return r, model
	}
	idx, key, seen := m.slice(extra, vs)
	if c, ok := m.qcache[key]; ok {
		m.cacheHits++
		return c.r, m.mergeModel(c.model)
	}
	slice := make([]*Term, 0, len(idx))
	for _, i := range idx {
		slice = append(slice, m.pc[i])
	}
	r, model := m.solver.CheckSlice(slice, extra, seen)
	if len(m.qcache) > 300000 {
		clear(m.qcache)
	}
	m.qcache[key] = cacheRes{r, model}
	if r != Sat {
		return r, nil
	}
	return r, m.mergeModel(model)
}

// slice returns the part of the path condition connected to the query, a key for the query under it and the variables in it.
func (m *M) slice(extra *Term, vs []*Term) ([]int, string, map[*Term]bool) {
	in := map[int]bool{}
	seen := map[*Term]bool{}
	work := append([]*Term(nil), vs...)
	for _, v := range vs {
		seen[v] = true
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range m.pcIdx[v] {
			if in[i] {
				continue
			}
			in[i] = true
			for _, u := range m.ctx.varsOf(m.pc[i]) {
				if !seen[u] {
					seen[u] = true
					work = append(work, u)
				}
			}
		}
	}
	ids := make([]int, 0, len(in))
	for i := range in {
		ids = append(ids, int(m.pc[i].id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	kb.Grow(4 * (len(ids) + 1))
	w32 := func(x int) {
		kb.WriteByte(byte(x))
		kb.WriteByte(byte(x >> 8))
		kb.WriteByte(byte(x >> 16))
		kb.WriteByte(byte(x >> 24))
	}
	w32(int(extra.id))
	for _, i := range ids {
		w32(i)
	}
	idx := make([]int, 0, len(in))
	for i := range in {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	return idx, kb.String(), seen
}

// audit puts a query answered by the byte-domain step to the solver as well: each different one at first, later a sample.
func (m *M) audit(extra *Term, vs []*Term, want SatResult) {
	m.auditSeen++
	if m.audits > 1500 && m.auditSeen%64 != 0 {
		return
	}
	var kb strings.Builder
	kb.WriteByte('a')
	fmt.Fprint(&kb, extra.id)
	var pc []*Term
	seen := map[*Term]bool{}
	for _, v := range vs {
		seen[v] = true
		for _, i := range m.pcIdx[v] {
			if t := m.pc[i]; len(m.ctx.varsOf(t)) == 1 {
				pc = append(pc, t)
				fmt.Fprint(&kb, " ", t.id)
			}
		}
	}
	key := kb.String()
	if m.audited[key] {
		return
	}
	m.audited[key] = true
	m.audits++
	r, _ := m.solver.CheckSlice(pc, extra, seen)
	if r == want {
		m.auditOK++
	} else if r == Unknown {
		m.solver.Unknown--
	} else {
		panic(fmt.Sprintf("engine: the byte-domain step and the solver disagree on %v", extra))
	}
}

func (m *M) mergeModel(part map[string]uint64) map[string]uint64 {
	if part == nil {
		return nil
	}
	out := make(map[string]uint64, len(m.ctx.model)+len(part))
	for k, v := range m.ctx.model {
		out[k] = v
	}
	for k, v := range part {
		out[k] = v
	}
	return out
}

// fixModel makes the current model satisfy the path condition (after a path whose model was not known).
func (m *M) fixModel() {
	if m.modelOK {
		return
	}
	r, model := m.solver.Check(m.pc, nil)
	switch r {
	case Unsat:
		panic(pathAbort{"infeasible", ""})
	case Sat:
		m.ctx.SetModel(model)
		m.modelOK = true
	default:
		m.note("solver-unknown-path")
	}
}
