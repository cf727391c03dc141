package main

// If-conversion: a region is a small acyclic set of side-effect free blocks entered only through its first block and
// left through at most two targets (or returns). On a symbolic condition the region is evaluated once with guards,
// so that chains of && and || and min/max-like diamonds do not fork.

type region struct {
	blocks []int // topological order, blocks[0] is the entry
	exits  []int // exit targets (block indexes; -1 = return)
}

const maxRegionBlocks = 24
const maxRegionInstrs = 160

func (fi *fnInfo) findRegions() {
	n := len(fi.blocks)
	preds := make([][]int, n)
	for bi := range fi.blocks {
		for _, s := range fi.succs(bi) {
			preds[s] = append(preds[s], bi)
		}
	}
	pureBlk := make([]bool, n)
	for bi := range fi.blocks {
		b := &fi.blocks[bi]
		ok := b.kind != tPanic
		if b.kind == tRet && fi.hasDefer {
			ok = false
		}
		for i := range b.ins {
			if !b.ins[i].pure {
				ok = false
				break
			}
		}
		pureBlk[bi] = ok
	}
	for bi := range fi.blocks {
		b := &fi.blocks[bi]
		if b.kind != tIf {
			continue
		}
		in := map[int]bool{bi: true}
		order := []int{bi}
		instrs := 0
		exitsOf := func() []int {
			var ex []int
			seen := map[int]bool{}
			for _, x := range order {
				blk := &fi.blocks[x]
				if blk.kind == tRet {
					if !seen[-1] {
						seen[-1] = true
						ex = append(ex, -1)
					}
					continue
				}
				for _, s := range fi.succs(x) {
					if !in[s] && !seen[s] {
						seen[s] = true
						ex = append(ex, s)
					}
				}
			}
			return ex
		}
		var best *region
		for len(order) < maxRegionBlocks && instrs < maxRegionInstrs {
			cand := -1
			for _, s := range exitsOf() {
				if s < 0 || !pureBlk[s] || s == bi {
					continue
				}
				ok := true
				for _, p := range preds[s] {
					if !in[p] {
						ok = false
						break
					}
				}
				if ok {
					cand = s
					break
				}
			}
			if cand < 0 {
				break
			}
			in[cand] = true
			order = append(order, cand)
			instrs += len(fi.blocks[cand].ins)
			ex := exitsOf()
			if len(ex) == 1 || (len(ex) == 2 && (best == nil || len(best.exits) == 2)) {
				best = &region{blocks: append([]int(nil), order...), exits: ex}
			}
		}
		b.region = best
	}
}

func (fi *fnInfo) succs(bi int) []int {
	b := &fi.blocks[bi]
	switch b.kind {
	case tJump:
		return []int{b.succ[0]}
	case tIf:
		return []int{b.succ[0], b.succ[1]}
	}
	return nil
}

type gedge struct {
	from, predIdx int
	g             *Term
}

// ifConvert evaluates region r whose entry condition is c. It returns the block to continue with (its phis are set),
// or -1 after a return.
func (m *M) ifConvert(fr *frame, r *region, c *Term) (next int, ok bool) {
	fi := fr.info
	in := map[int][]gedge{}
	addEdges := func(bi int, g *Term, cond value) {
		b := &fi.blocks[bi]
		switch b.kind {
		case tJump:
			in[b.succ[0]] = append(in[b.succ[0]], gedge{bi, b.predIdx[0], g})
		case tIf:
			ct := m.boolTerm(cond)
			if gt := m.ctx.And(g, ct); gt != m.ctx.False {
				in[b.succ[0]] = append(in[b.succ[0]], gedge{bi, b.predIdx[0], gt})
			}
			if gf := m.ctx.And(g, m.ctx.Not(ct)); gf != m.ctx.False {
				in[b.succ[1]] = append(in[b.succ[1]], gedge{bi, b.predIdx[1], gf})
			}
		}
	}
	addEdges(r.blocks[0], m.ctx.True, c)
	type retv struct {
		g  *Term
		vs []value
	}
	var rets []retv
	success := func() (success bool) {
		m.speculating++
		defer func() {
			m.speculating--
			if x := recover(); x != nil {
				if _, isSpec := x.(specFail); isSpec {
					success = false
					return
				}
				panic(x)
			}
		}()
		for _, bi := range r.blocks[1:] {
			es := in[bi]
			if len(es) == 0 {
				continue
			}
			var gs []*Term
			for _, e := range es {
				gs = append(gs, e.g)
			}
			g := m.ctx.Or(gs...)
			if g == m.ctx.False {
				continue
			}
			b := &fi.blocks[bi]
			if !m.mergePhis(fr, b, es) {
				return false
			}
			for i := range b.ins {
				ci := &b.ins[i]
				ci.op(m, fr, ci)
			}
			if b.kind == tRet {
				rv := retv{g: g}
				for i := range b.rets {
					rv.vs = append(rv.vs, m.get(fr, &b.rets[i]))
				}
				rets = append(rets, rv)
				continue
			}
			var cond value
			if b.kind == tIf {
				cond = m.get(fr, &b.cond)
			}
			addEdges(bi, g, cond)
		}
		return true
	}()
	if !success {
		return 0, false
	}
	// collect exits actually reachable
	type exit struct {
		target int
		g      *Term
	}
	var exits []exit
	for _, t := range r.exits {
		var gs []*Term
		if t == -1 {
			for _, rv := range rets {
				gs = append(gs, rv.g)
			}
		} else {
			for _, e := range in[t] {
				gs = append(gs, e.g)
			}
		}
		g := m.ctx.Or(gs...)
		if g != m.ctx.False {
			exits = append(exits, exit{t, g})
		}
	}
	if len(exits) == 0 || len(exits) > 2 {
		return 0, false
	}
	// check that the phis of every exit can be merged before committing to a decision
	for _, e := range exits {
		if e.target >= 0 {
			if !m.canMergePhis(fr, &fi.blocks[e.target], in[e.target]) {
				return 0, false
			}
		} else {
			for i := range rets[0].vs {
				for j := 1; j < len(rets); j++ {
					if !m.mergeable(rets[0].vs[i], rets[j].vs[i], retInt(fi, i)) {
						return 0, false
					}
				}
			}
		}
	}
	pick := exits[0]
	if len(exits) == 2 {
		if !m.branchT(exits[0].g) {
			pick = exits[1]
		}
	}
	if pick.target >= 0 {
		if !m.mergePhis(fr, &fi.blocks[pick.target], in[pick.target]) {
			panic(engineErr("ifConvert: merge"))
		}
		return pick.target, true
	}
	out := make([]value, len(rets[0].vs))
	for i := range out {
		v := rets[len(rets)-1].vs[i]
		for j := len(rets) - 2; j >= 0; j-- {
			v = m.iteV(rets[j].g, rets[j].vs[i], v, fi.retType(i))
		}
		out[i] = v
	}
	switch len(out) {
	case 0:
		fr.result = nil
	case 1:
		fr.result = out[0]
	default:
		fr.result = tuple(out)
	}
	return -1, true
}

func retInt(fi *fnInfo, i int) bool { return fi.isWideInt(i) }

func (fi *fnInfo) isWideInt(i int) bool {
	ii, ok := basicInt(fi.fn.Signature.Results().At(i).Type())
	return ok && ii.w == 64
}

func (fi *fnInfo) retType(i int) intInfo {
	ii, _ := basicInt(fi.fn.Signature.Results().At(i).Type())
	return ii
}

// mergeable says whether two values may be joined by an ite. Distinct concrete machine-word integers are not: they are
// usually positions and lengths, for which forking is better.
func (m *M) mergeable(a, b value, wide bool) bool {
	switch x := a.(type) {
	case bool:
		switch b.(type) {
		case bool, *Term:
			return true
		}
		return false
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y || !wide
		case *Term:
			return true
		}
		return false
	case float64:
		switch b.(type) {
		case float64, *Term:
			return true
		}
		return false
	case *Term:
		switch b.(type) {
		case bool, int64, float64, *Term:
			return true
		}
		return false
	}
	return m.sameValue(a, b)
}

// sameValue is a cheap, decision-free identity test.
func (m *M) sameValue(a, b value) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *SymStr:
		y, ok := b.(*SymStr)
		return ok && x == y
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case iface:
		y, ok := b.(iface)
		return ok && x.t == y.t && (x.t == nil || m.sameValue(x.v, y.v))
	case []value:
		y, ok := b.([]value)
		return ok && (x == nil) == (y == nil) && len(x) == len(y) && cap(x) == cap(y) && (len(x) == 0 || &x[0] == &y[0])
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case int64, bool, float64, *Term:
		return a == b
	case nil:
		return b == nil
	}
	return false
}

func (m *M) iteV(g *Term, a, b value, ii intInfo) value {
	if m.sameValue(a, b) {
		return a
	}
	var s Sort
	isB, isF := false, false
	for _, v := range []value{a, b} {
		switch x := v.(type) {
		case bool:
			isB = true
		case float64:
			isF = true
		case *Term:
			s = x.sort
			if s == SBool {
				isB = true
			}
			if s.isFP() {
				isF = true
			}
		}
	}
	if isB {
		return fromBool(m.ctx.Ite(g, m.boolTerm(a), m.boolTerm(b)))
	}
	if isF {
		if s == 0 {
			s = SF64
		}
		return fromFloat(m.ctx.Ite(g, m.floatTerm(a, s), m.floatTerm(b, s)))
	}
	if s == 0 {
		s = ii.w
	}
	if s == 0 {
		s = 64
		ii = intInfo{64, true}
	}
	return fromInt(m.ctx.Ite(g, m.intTerm(a, s), m.intTerm(b, s)), ii)
}

func (m *M) canMergePhis(fr *frame, b *cblock, es []gedge) bool {
	for i := range b.phis {
		ph := &b.phis[i]
		first := m.get(fr, &ph.ops[es[0].predIdx])
		for _, e := range es[1:] {
			if !m.mergeable(first, m.get(fr, &ph.ops[e.predIdx]), ph.wide) {
				return false
			}
		}
	}
	return true
}

func (m *M) mergePhis(fr *frame, b *cblock, es []gedge) bool {
	if len(b.phis) == 0 {
		return true
	}
	if !m.canMergePhis(fr, b, es) {
		return false
	}
	out := make([]value, len(b.phis))
	for i := range b.phis {
		ph := &b.phis[i]
		v := m.get(fr, &ph.ops[es[len(es)-1].predIdx])
		for j := len(es) - 2; j >= 0; j-- {
			v = m.iteV(es[j].g, m.get(fr, &ph.ops[es[j].predIdx]), v, ph.ii)
		}
		out[i] = v
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = out[i]
	}
	return true
}
