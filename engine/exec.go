package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	info      *fnInfo
	regs      []value
	defers    []deferred
	result    value
	panicking *targetPanic
	caller    *frame // for deferred calls: the frame running the defers
	fn        *fnInfo
}

type deferred struct {
	fn   value
	args []value
	ci   *cinstr
}

type targetPanic struct {
	v     value // iface
	rt    bool  // runtime error
	stack string
}

type pathAbort struct {
	kind string // "infeasible", "bound", "unsupported", "solver", "done"
	msg  string
}

// M is one worker's machine.
type M struct {
	p          *Program
	ctx        *Ctx
	solver     *Solver
	globals    []*value
	inited     map[*ssa.Package]bool
	logging    bool
	trail      []trailEntry
	depth      int
	steps      int64
	maxSteps   int64
	totalSteps int64
	covered    []bool // function ids executed
	curFn      []*fnInfo

	// exploration state
	prefix                      []int32
	decs                        []int32
	pc                          []*Term
	pcSet                       map[*Term]bool
	symbolic                    bool // harness phase (decisions allowed)
	ex                          *Explorer
	permMaps                    int
	mapOrder                    int
	mapTick                     int
	varCount                    map[string]int
	sub                         *subExplore
	speculating                 int
	obs                         []obsRec
	stdout                      []value
	pcIdx                       map[*Term][]int
	bitsTab                     map[*Term]*bset
	rangeTab                    map[*Term]urange
	qcache                      map[string]cacheRes
	modelOK                     bool
	domSat, domUnsat, cacheHits int
	auditSeen, audits, auditOK  int
	audited                     map[string]bool
	reach                       []string
	choices                     []choiceRec
	inconclusive                []string
	asserts                     int
	trivAsserts                 int
	notes                       map[string]int
	curPos                      *cinstr
	side                        map[string]any
}

type obsRec struct {
	label string
	v     value
}

type choiceRec struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Val  uint64 `json:"v"`
}

func (m *M) get(fr *frame, o *opnd) value {
	switch o.kind {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.c
	default:
		return m.global(o.idx)
	}
}

func (m *M) global(i int) *value {
	if i < len(m.globals) && m.globals[i] != nil {
		return m.globals[i]
	}
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	g := m.p.globalAt(i)
	p := new(value)
	*p = zero(deref(g.Type()))
	m.globals[i] = p
	m.initPkg(g.Pkg)
	return p
}

// initPkg runs a package's initialiser (not those of its imports: these run on demand).
func (m *M) initPkg(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	m.p.buildPkg(pkg)
	f := pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	oldLog, oldSym, oldSteps, oldPerm, oldSpec := m.logging, m.symbolic, m.steps, m.permMaps, m.speculating
	m.logging, m.symbolic, m.permMaps, m.speculating = false, false, 0, 0
	defer func() {
		m.logging, m.symbolic, m.steps, m.permMaps, m.speculating = oldLog, oldSym, oldSteps, oldPerm, oldSpec
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				panic(pathAbort{"unsupported", "panic in init of " + pkg.Pkg.Path() + ": " + m.panicText(tp)})
			}
			if pa, ok := r.(pathAbort); ok {
				pa.msg = "init of " + pkg.Pkg.Path() + ": " + pa.msg
				if debugOn {
					pa.msg += " @ " + m.stack()
				}
				panic(pa)
			}
			panic(r)
		}
	}()
	m.call(f, nil, nil)
}

func (m *M) load(pv value) value {
	p, ok := pv.(*value)
	if !ok {
		if sl, ok := pv.(sliceData); ok && len(sl.s) > 0 {
			return copyVal(sl.s[0])
		}
		panic(engineErr(fmt.Sprintf("load through %T", pv)))
	}
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*p)
}

// ---- panics

func (m *M) rtPanic(msg string) {
	if m.speculating > 0 {
		panic(specFail{})
	}
	panic(targetPanic{v: iface{m.p.errStringT, msg}, rt: true, stack: m.stack()})
}
func (m *M) rtPanicIface(msg string) { m.rtPanic(msg) }

type specFail struct{}

func (m *M) stack() string {
	var sb strings.Builder
	for i := len(m.curFn) - 1; i >= 0 && i > len(m.curFn)-12; i-- {
		sb.WriteString(m.curFn[i].name)
		sb.WriteString(" < ")
	}
	return sb.String()
}

func (m *M) panicText(tp targetPanic) string {
	v, ok := tp.v.(iface)
	if !ok {
		return fmt.Sprintf("%v", tp.v)
	}
	s := ""
	switch x := v.v.(type) {
	case string:
		s = x
	default:
		func() {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprintf("(%v)", v.t)
				}
			}()
			s = m.debugStr(m.fmtAny(v, 'v', false))
		}()
	}
	return s + " @ " + tp.stack
}

func (m *M) debugStr(v value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		var sb strings.Builder
		for _, b := range x.b {
			switch c := b.(type) {
			case int64:
				sb.WriteByte(byte(c))
			case *Term:
				sb.WriteByte(byte(m.ctx.Eval(c)))
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%v", v)
}

// ---- calls

func (m *M) call(fn *ssa.Function, args []value, env []value) value {
	return m.callFrom(nil, fn, args, env)
}

func (m *M) callFrom(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if fn == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	fi := m.p.info(fn)
	return m.callInfo(caller, fi, args, env)
}

func (m *M) callInfo(caller *frame, fi *fnInfo, args []value, env []value) value {
	if fi.intr != nil {
		if m.speculating > 0 {
			panic(specFail{})
		}
		if r, ok := fi.intr(m, caller, args); ok {
			return r
		}
	}
	if fi.err != nil {
		panic(pathAbort{"unsupported", fi.err.Error()})
	}
	if fi.fn.Synthetic == "package initializer" && caller != nil && caller.info.fn.Synthetic == "package initializer" {
		return nil // imports are initialised on demand
	}
	if fi.merge && m.symbolic && m.speculating == 0 {
		if r, ok := m.mergeCall(fi, args, env); ok {
			return r
		}
	}
	if m.depth > 3000 {
		panic(pathAbort{"bound", "call depth"})
	}
	m.depth++
	if fi.id >= len(m.covered) {
		m.covered = append(m.covered, make([]bool, fi.id+1024-len(m.covered))...)
	}
	m.covered[fi.id] = true
	m.curFn = append(m.curFn, fi)
	fr := &frame{info: fi, regs: make([]value, fi.nregs), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[fi.nparams:], env)
	if fi.hasDefer {
		m.runDeferring(fr)
	} else {
		m.run(fr, 0)
	}
	m.curFn = m.curFn[:len(m.curFn)-1]
	m.depth--
	return fr.result
}

func (m *M) runDeferring(fr *frame) {
	depth, cl := m.depth, len(m.curFn)
	rec := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				m.depth = depth
				m.curFn = m.curFn[:cl]
				fr.panicking = &tp
				m.runDefers(fr)
				if fr.panicking != nil {
					panic(*fr.panicking)
				}
				rec = true
			}
		}()
		m.run(fr, 0)
	}()
	if rec {
		if fr.info.recover >= 0 {
			m.run(fr, fr.info.recover)
		} else {
			sig := fr.info.fn.Signature.Results()
			switch sig.Len() {
			case 0:
			case 1:
				fr.result = zero(sig.At(0).Type())
			default:
				fr.result = zero(sig)
			}
		}
	}
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panicking = &tp
						return
					}
					panic(r)
				}
			}()
			m.callValue(fr, d.fn, d.args, d.ci)
		}()
	}
}

func (m *M) prepCall(fr *frame, ci *cinstr) (value, []value) {
	if ci.meth != nil {
		recv, ok := m.get(fr, &ci.a).(iface)
		if !ok {
			panic(engineErr(fmt.Sprintf("invoke on %T in %s", m.get(fr, &ci.a), fr.info.name)))
		}
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]value, len(ci.args)+1)
		args[0] = recv.v
		for i := range ci.args {
			args[i+1] = m.get(fr, &ci.args[i])
		}
		return m.findMethod(recv, ci.meth), args
	}
	args := make([]value, len(ci.args))
	for i := range ci.args {
		args[i] = m.get(fr, &ci.args[i])
	}
	return m.get(fr, &ci.a), args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (m *M) findMethod(recv iface, meth *types.Func) value {
	k := methKey{recv.t, meth}
	if f, ok := m.p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	if _, ok := recv.v.(rtype); ok {
		// reflect.Type methods on our rtype
		return native{"rtype." + meth.Name(), func(m *M, args []value) value { return m.rtypeMethod(meth.Name(), args) }}
	}
	fn := m.p.lookupMethod(recv.t, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(engineErr(fmt.Sprintf("no method %s on %s", meth.Name(), recv.t)))
	}
	m.p.methods.Store(k, fn)
	return fn
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	return p.prog.LookupMethod(t, pkg, name)
}

func (m *M) implements(t, it types.Type) bool {
	k := [2]types.Type{t, it}
	if v, ok := m.p.implements.Load(k); ok {
		return v.(bool)
	}
	i := it.Underlying().(*types.Interface)
	canonMu.Lock()
	r := types.Implements(t, i)
	canonMu.Unlock()
	m.p.implements.Store(k, r)
	return r
}

func opCall(m *M, fr *frame, ci *cinstr) {
	if m.speculating > 0 {
		panic(specFail{})
	}
	// fast path: static call
	if ci.meth == nil && ci.a.kind == oConst {
		if f, ok := ci.a.c.(*ssa.Function); ok {
			if ci.fi == nil {
				ci.fi = m.p.info(f)
			}
			args := make([]value, len(ci.args))
			for i := range ci.args {
				args[i] = m.get(fr, &ci.args[i])
			}
			fr.regs[ci.dst] = m.callInfo(fr, ci.fi, args, nil)
			return
		}
	}
	fn, args := m.prepCall(fr, ci)
	r := m.callValue(fr, fn, args, ci)
	fr.regs[ci.dst] = r
}

func (m *M) callValue(fr *frame, fn value, args []value, ci *cinstr) value {
	switch f := fn.(type) {
	case *ssa.Function:
		return m.callFrom(fr, f, args, nil)
	case *closure:
		return m.callFrom(fr, f.fn, args, f.env)
	case native:
		return f.fn(m, args)
	case *ssa.Builtin:
		return m.builtin(fr, f.Name(), args, ci)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(engineErr(fmt.Sprintf("call of %T", fn)))
}

// callFunc calls a function value from an intrinsic.
func (m *M) callFunc(fn value, args ...value) value {
	return m.callValue(nil, fn, args, nil)
}

// callMethod invokes a method by name on an interface value's dynamic type, if it has it.
func (m *M) callMethod(v iface, name string, args ...value) (value, bool) {
	if v.t == nil {
		return nil, false
	}
	var fn *ssa.Function
	k := [2]any{v.t, name}
	if c, ok := m.p.methods.Load(k); ok {
		fn = c.(*ssa.Function)
	} else {
		canonMu.Lock()
		ms := m.p.prog.MethodSets.MethodSet(v.t)
		sel := ms.Lookup(nil, name)
		canonMu.Unlock()
		if sel != nil {
			fn = m.p.prog.MethodValue(sel)
		}
		m.p.methods.Store(k, fn)
	}
	if fn == nil {
		return nil, false
	}
	return m.call(fn, append([]value{v.v}, args...), nil), true
}

// ---- the main loop

func (m *M) run(fr *frame, start int) {
	bi := start
	pred := -1
	fi := fr.info
	for {
		blk := &fi.blocks[bi]
		if len(blk.phis) > 0 && pred >= 0 {
			if len(blk.phis) == 1 {
				fr.regs[blk.phis[0].dst] = m.get(fr, &blk.phis[0].ops[pred])
			} else {
				var tmpA [8]value
				tmp := tmpA[:0]
				for i := range blk.phis {
					tmp = append(tmp, m.get(fr, &blk.phis[i].ops[pred]))
				}
				for i := range blk.phis {
					fr.regs[blk.phis[i].dst] = tmp[i]
				}
			}
		}
		m.steps += int64(len(blk.ins)) + 1
		if m.steps > m.maxSteps {
			panic(pathAbort{"bound", "instruction budget in " + fi.name})
		}
		for i := range blk.ins {
			ci := &blk.ins[i]
			ci.op(m, fr, ci)
		}
		switch blk.kind {
		case tJump:
			pred = blk.predIdx[0]
			bi = blk.succ[0]
		case tIf:
			k := 0
			switch c := m.get(fr, &blk.cond).(type) {
			case bool:
				if !c {
					k = 1
				}
			case *Term:
				if blk.region != nil && m.speculating == 0 && c.op != OConst && !m.pcSet[c] && !m.pcSet[m.ctx.Not(c)] {
					if nb, ok := m.ifConvert(fr, blk.region, c); ok {
						if nb < 0 {
							return
						}
						bi, pred = nb, -1
						continue
					}
				}
				if !m.branchT(c) {
					k = 1
				}
			}
			pred = blk.predIdx[k]
			bi = blk.succ[k]
		case tRet:
			switch len(blk.rets) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = m.get(fr, &blk.rets[0])
			default:
				tp := make(tuple, len(blk.rets))
				for i := range blk.rets {
					tp[i] = m.get(fr, &blk.rets[i])
				}
				fr.result = tp
			}
			return
		case tPanic:
			v := m.get(fr, &blk.pv)
			panic(targetPanic{v: v, stack: m.stack()})
		}
	}
}

// ---- decisions

func (m *M) branchV(v value) bool {
	switch c := v.(type) {
	case bool:
		return c
	case *Term:
		return m.branchT(c)
	}
	panic(engineErr(fmt.Sprintf("branch on %T", v)))
}

func (m *M) branchT(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if m.speculating > 0 {
		panic(specFail{})
	}
	if !m.symbolic {
		panic(engineErr("symbolic branch outside the symbolic phase"))
	}
	if m.pcSet[c] {
		return true
	}
	nc := m.ctx.Not(c)
	if m.pcSet[nc] {
		return false
	}
	if sc := m.simp(c); sc != c {
		return m.branchT(sc)
	}
	i := len(m.decs)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.decs = append(m.decs, d)
		switch d {
		case 1:
			m.assume(c)
			return true
		case 0:
			m.assume(nc)
			return false
		case 3: // forced true (other side infeasible)
			m.assume(c)
			return true
		case 2:
			m.assume(nc)
			return false
		}
		panic(engineErr(fmt.Sprintf("decision mismatch %d", d)))
	}
	m.fixModel()
	taken := m.ctx.Eval(c) == 1
	other := nc
	if !taken {
		other = c
	}
	r, model := m.query(other)
	switch r {
	case Unsat:
		m.decs = append(m.decs, 2+b2i(taken))
	case Sat:
		m.push(m.decs, b2i(!taken), model)
		m.decs = append(m.decs, b2i(taken))
	case Unknown:
		m.note("solver-unknown-branch")
		if debugOn {
			fmt.Fprintf(os.Stderr, "unknown branch at %s: %.400s\n", m.stack(), other.show(8))
		}
		m.push(m.decs, b2i(!taken), nil)
		m.decs = append(m.decs, b2i(taken))
	}
	if taken {
		m.assume(c)
	} else {
		m.assume(nc)
	}
	return taken
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (m *M) push(prefix []int32, alt int32, model map[string]uint64) {
	p := make([]int32, len(prefix)+1)
	copy(p, prefix)
	p[len(prefix)] = alt
	if m.sub != nil {
		m.sub.stack = append(m.sub.stack, workItem{prefix: p, model: model})
		return
	}
	m.ex.push(workItem{prefix: p, model: model})
}

// assume adds c to the path condition (known to be consistent with the current model or being replayed).
func (m *M) assume(c *Term) {
	if c.op == OConst || m.pcSet[c] {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			m.assume(a)
		}
		return
	}
	m.addPC(c)
}

// require restricts the path to c; ends the path if that is infeasible.
func (m *M) require(c *Term) {
	c = m.simp(c)
	if c == m.ctx.True {
		return
	}
	if c == m.ctx.False {
		panic(pathAbort{"infeasible", ""})
	}
	if m.ctx.Eval(c) == 1 || !m.modelOK && len(m.decs) < len(m.prefix) {
		m.assume(c)
		return
	}
	if len(m.decs) < len(m.prefix) {
		// replaying: the item's model satisfies everything up to the prefix end unless unknown
		r, model := m.query(c)
		if r == Unsat {
			panic(pathAbort{"infeasible", ""})
		}
		if r == Sat {
			m.ctx.SetModel(model)
		}
		m.assume(c)
		return
	}
	r, model := m.query(c)
	switch r {
	case Unsat:
		panic(pathAbort{"infeasible", ""})
	case Sat:
		m.ctx.SetModel(model)
	case Unknown:
		m.note("solver-unknown-assume")
	}
	m.assume(c)
}

// choose forks n ways.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.speculating > 0 {
		panic(specFail{})
	}
	if !m.symbolic {
		return 0
	}
	i := len(m.decs)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.decs = append(m.decs, d)
		return int(d)
	}
	for k := n - 1; k >= 1; k-- {
		m.push(m.decs, int32(k), m.ctx.model)
	}
	m.decs = append(m.decs, 0)
	return 0
}

func (m *M) note(s string) { m.notes[s]++ }

// concInt makes an integer concrete, forking over its feasible values.
func (m *M) concInt(v value) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case *Term:
		return int(sext(m.concTerm(x), x.sort))
	}
	panic(engineErr(fmt.Sprintf("concInt %T", v)))
}

func (m *M) concTerm(t *Term) uint64 {
	for n := 0; ; n++ {
		if n > 300 {
			panic(pathAbort{"bound", "too many values when concretising"})
		}
		var v uint64
		// deterministic during replay: the value tried is recorded through the branch decision,
		// so it must not depend on the model. Record it as a decision.
		i := len(m.decs)
		if i < len(m.prefix) {
			v = uint64(uint32(m.prefix[i])) | uint64(uint32(m.prefix[i+1]))<<32
			m.decs = append(m.decs, m.prefix[i], m.prefix[i+1])
		} else {
			v = m.ctx.Eval(t)
			m.decs = append(m.decs, int32(uint32(v)), int32(uint32(v>>32)))
		}
		if m.branchT(m.ctx.Eq(t, m.ctx.BV(v, t.sort))) {
			return v
		}
	}
}

// ---- indexing

func (m *M) checkIndex(iv value, n int, ii intInfo) (int, *Term) {
	switch i := iv.(type) {
	case int64:
		if ii.signed && i < 0 || uint64(i) >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		var in *Term
		if i.sort < 64 && uint64(n) > mask(i.sort) {
			in = m.ctx.True
			if ii.signed {
				in = m.ctx.Not(m.ctx.cmp(OSlt, i, m.ctx.BV(0, i.sort)))
			}
		} else {
			in = m.ctx.cmp(OUlt, i, m.ctx.BV(uint64(n), i.sort))
		}
		if in != m.ctx.True {
			if m.speculating > 0 {
				panic(specFail{})
			}
			if !m.branchT(in) {
				m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
			}
		}
		return 0, i
	}
	panic(engineErr(fmt.Sprintf("index %T", iv)))
}

// selectSym reads elems[i] for a symbolic i known to be in range.
func (m *M) selectSym(elems []value, i *Term, ii intInfo) (value, bool) {
	// group equal concrete values
	allScalar := true
	for _, e := range elems {
		switch e.(type) {
		case int64, bool, *Term, float64:
		default:
			allScalar = false
		}
		if !allScalar {
			break
		}
	}
	if !allScalar || len(elems) > 4096 {
		return nil, false
	}
	// find sort from any element
	var s Sort
	haveSort := false
	isB := false
	for _, e := range elems {
		switch x := e.(type) {
		case *Term:
			s, haveSort = x.sort, true
		case bool:
			isB = true
		case float64:
			return nil, false
		}
	}
	if isB {
		s, haveSort = SBool, true
	}
	if !haveSort {
		s = 64
		if ii.w != 0 {
			s = ii.w
		}
	}
	term := func(e value) *Term {
		switch x := e.(type) {
		case int64:
			return m.ctx.BV(uint64(x), s)
		case bool:
			return m.ctx.Bool(x)
		}
		return e.(*Term)
	}
	// runs of equal values
	type run struct {
		lo, hi int
		t      *Term
	}
	var runs []run
	for k := 0; k < len(elems); k++ {
		if uint64(k) > mask(i.sort) {
			break
		}
		t := term(elems[k])
		if len(runs) > 0 && runs[len(runs)-1].t == t {
			runs[len(runs)-1].hi = k
		} else {
			runs = append(runs, run{k, k, t})
		}
	}
	// balanced decision tree on the index
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].t
		}
		mid := (lo + hi) / 2
		g := m.ctx.cmp(OUle, i, m.ctx.BV(uint64(runs[mid].hi), i.sort))
		return m.ctx.Ite(g, build(lo, mid), build(mid+1, hi))
	}
	// few distinct values: group them as disjunctions instead
	distinct := map[*Term]bool{}
	for _, r := range runs {
		distinct[r.t] = true
	}
	if len(distinct) <= 3 && len(runs) > 3 {
		count := map[*Term]int{}
		for _, r := range runs {
			count[r.t]++
		}
		var def *Term
		for _, r := range runs {
			if def == nil || count[r.t] > count[def] {
				def = r.t
			}
		}
		out := def
		done := map[*Term]bool{def: true}
		for _, r := range runs {
			if done[r.t] {
				continue
			}
			done[r.t] = true
			var ors []*Term
			for _, q := range runs {
				if q.t != r.t {
					continue
				}
				if q.lo == q.hi {
					ors = append(ors, m.ctx.Eq(i, m.ctx.BV(uint64(q.lo), i.sort)))
				} else {
					ors = append(ors, m.ctx.And(m.ctx.cmp(OUle, m.ctx.BV(uint64(q.lo), i.sort), i), m.ctx.cmp(OUle, i, m.ctx.BV(uint64(q.hi), i.sort))))
				}
			}
			out = m.ctx.Ite(m.ctx.Or(ors...), r.t, out)
		}
		return out, true
	}
	return build(0, len(runs)-1), true
}

func opIndex(m *M, fr *frame, ci *cinstr) {
	x := m.get(fr, &ci.a)
	iv := m.get(fr, &ci.b)
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(s)
		k, t := m.checkIndex(iv, n, ci.ii)
		if t == nil {
			fr.regs[ci.dst] = strAt(s, k)
			return
		}
		r, ok := m.selectSym(strBytes(s), t, intInfo{8, false})
		if !ok {
			panic(engineErr("selectSym on string"))
		}
		if rt, ok := r.(*Term); ok {
			r = fromInt(rt, intInfo{8, false})
		}
		fr.regs[ci.dst] = r
	case array:
		k, t := m.checkIndex(iv, len(s), ci.ii)
		if t == nil {
			fr.regs[ci.dst] = s[k]
			return
		}
		ei, _ := basicInt(ci.t)
		if r, ok := m.selectSym(s, t, ei); ok {
			fr.regs[ci.dst] = m.fromSel(r, ei)
			return
		}
		fr.regs[ci.dst] = s[m.concInt(t)]
	default:
		panic(engineErr(fmt.Sprintf("Index of %T", x)))
	}
}

func (m *M) fromSel(r value, ei intInfo) value {
	t, ok := r.(*Term)
	if !ok {
		return r
	}
	if t.sort == SBool {
		return fromBool(t)
	}
	return fromInt(t, ei)
}

func opIndexAddr(m *M, fr *frame, ci *cinstr) {
	var elems []value
	switch s := m.get(fr, &ci.a).(type) {
	case []value:
		elems = s
	case *value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		elems = (*s).(array)
	case sliceData:
		elems = s.s
	default:
		panic(engineErr(fmt.Sprintf("IndexAddr of %T", s)))
	}
	k, t := m.checkIndex(m.get(fr, &ci.b), len(elems), ci.ii)
	if t == nil {
		fr.regs[ci.dst] = &elems[k]
		return
	}
	// A symbolic index: if the address is only loaded from, give a temporary holding the selected value.
	if v, ok := ci.aux.(loadOnly); ok {
		if r, ok := m.selectSym(elems, t, v.ei); ok {
			p := new(value)
			*p = m.fromSel(r, v.ei)
			fr.regs[ci.dst] = p
			return
		}
	}
	if m.speculating > 0 {
		panic(specFail{})
	}
	fr.regs[ci.dst] = &elems[m.concInt(m.resize(t, ci.ii))]
}

func (m *M) resize(t *Term, ii intInfo) *Term {
	if t.sort == 64 {
		return t
	}
	if ii.signed {
		return m.ctx.SExt(t, 64)
	}
	return m.ctx.ZExt(t, 64)
}

type loadOnly struct{ ei intInfo }

func opSlice(m *M, fr *frame, ci *cinstr) {
	x := m.get(fr, &ci.a)
	lo, hi, mx := 0, -1, -1
	if v := m.get(fr, &ci.b); v != nil {
		lo = m.specConc(v)
	}
	if v := m.get(fr, &ci.c); v != nil {
		hi = m.specConc(v)
		if hi < 0 {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d]", hi))
		}
	}
	if v := m.get(fr, &ci.d); v != nil {
		mx = m.specConc(v)
		if mx < 0 {
			m.rtPanic("slice bounds out of range")
		}
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(s)
		if hi < 0 {
			hi = n
		}
		if lo < 0 || hi > n || lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		fr.regs[ci.dst] = strSlice(s, lo, hi)
	case []value:
		c := cap(s)
		if hi < 0 {
			hi = len(s)
		}
		if mx < 0 {
			mx = c
		}
		if lo < 0 || lo > hi || hi > mx || mx > c {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
		}
		fr.regs[ci.dst] = s[lo:hi:mx]
	case *value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*s).(array)
		c := len(a)
		if hi < 0 {
			hi = c
		}
		if mx < 0 {
			mx = c
		}
		if lo < 0 || lo > hi || hi > mx || mx > c {
			m.rtPanic("slice bounds out of range")
		}
		fr.regs[ci.dst] = []value(a)[lo:hi:mx]
	default:
		panic(engineErr(fmt.Sprintf("Slice of %T", x)))
	}
}

func (m *M) specConc(v value) int {
	if _, ok := v.(*Term); ok && m.speculating > 0 {
		panic(specFail{})
	}
	return m.concInt(v)
}

// ---- runes

func (m *M) decodeRune(s value, i int) (value, int) {
	if cs, ok := s.(string); ok {
		for k, r := range cs[i:] {
			_ = k
			n := len(string(r))
			if r == 0xFFFD {
				// may be an invalid byte
				n = 1
				if strings.HasPrefix(cs[i:], "\uFFFD") {
					n = 3
				}
			}
			return mkInt(int64(r)), n
		}
	}
	b := strAt(s, i)
	if c, ok := b.(int64); ok && c < 0x80 {
		return b, 1
	}
	if t, ok := b.(*Term); ok {
		if m.branchT(m.ctx.cmp(OUlt, t, m.ctx.BV(0x80, 8))) {
			return fromInt(m.ctx.ZExt(t, 32), intInfo{32, true}), 1
		}
	}
	fn := m.p.funcByName("unicode/utf8", "DecodeRuneInString")
	r := m.call(fn, []value{strSlice(s, i, strLen(s))}, nil).(tuple)
	return r[0], m.concInt(r[1])
}

func (p *Program) funcByName(pkg, name string) *ssa.Function {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(pathAbort{"unsupported", "package " + pkg + " not loaded"})
	}
	f := pk.Func(name)
	if f == nil {
		panic(pathAbort{"unsupported", "no function " + pkg + "." + name})
	}
	return f
}

func (m *M) runeToStr(v value, ii intInfo) value {
	switch r := v.(type) {
	case int64:
		if r < 0 || r > 0x10FFFF {
			return "\uFFFD"
		}
		return string(rune(r))
	case *Term:
		t := r
		if ii.w != 32 {
			if ii.w < 32 {
				if ii.signed {
					t = m.ctx.SExt(r, 32)
				} else {
					t = m.ctx.ZExt(r, 32)
				}
			} else {
				t = m.ctx.Trunc(r, 32)
			}
		}
		c := func(k uint64) *Term { return m.ctx.BV(k, 32) }
		if m.branchT(m.ctx.cmp(OUlt, t, c(0x80))) {
			return mkStr([]value{fromInt(m.ctx.Trunc(t, 8), intInfo{8, false})})
		}
		by := func(sh uint64, msk, or uint64) value {
			x := m.ctx.Bin(OLShr, t, c(sh))
			x = m.ctx.Bin(OBOr, m.ctx.Bin(OBAnd, x, c(msk)), c(or))
			return fromInt(m.ctx.Trunc(x, 8), intInfo{8, false})
		}
		if m.branchT(m.ctx.cmp(OUlt, t, c(0x800))) {
			return mkStr([]value{by(6, 0x1f, 0xc0), by(0, 0x3f, 0x80)})
		}
		bad := m.ctx.Or(m.ctx.cmp(OUlt, c(0x10FFFF), t), m.ctx.And(m.ctx.cmp(OUle, c(0xD800), t), m.ctx.cmp(OUle, t, c(0xDFFF))))
		if m.branchT(bad) {
			return "\uFFFD"
		}
		if m.branchT(m.ctx.cmp(OUlt, t, c(0x10000))) {
			return mkStr([]value{by(12, 0x0f, 0xe0), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80)})
		}
		return mkStr([]value{by(18, 0x07, 0xf0), by(12, 0x3f, 0x80), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80)})
	}
	panic(engineErr("runeToStr"))
}

// ---- maps

func (m *M) rangeMap(fr *frame, mp *Map) value {
	it := &mapIter{m: mp}
	if mp == nil {
		it.m = newMap()
		return it
	}
	for i := range mp.keys {
		if mp.live[i] {
			it.order = append(it.order, i)
		}
	}
	if m.mapOrder > 0 && m.symbolic && fr.info.perm && len(it.order) > 1 {
		m.note("reordered-map-ranges")
		n := len(it.order)
		if m.mapOrder == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		} else {
			// a fixed pseudo-random order, different at every range statement executed
			m.mapTick++
			x := uint64(m.mapOrder)*0x9E3779B97F4A7C15 + uint64(m.mapTick)*0xBF58476D1CE4E5B9
			for i := n - 1; i > 0; i-- {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				j := int(x % uint64(i+1))
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
	}
	if m.permMaps > 0 && m.symbolic && fr.info.perm && len(it.order) > 1 {
		m.note("permuted-map-ranges")
		n := len(it.order)
		if n <= m.permMaps {
			rest := it.order
			out := make([]int, 0, n)
			for len(rest) > 0 {
				k := m.choose(len(rest))
				out = append(out, rest[k])
				rest = append(append([]int(nil), rest[:k]...), rest[k+1:]...)
			}
			it.order = out
		} else {
			// too many entries for all orders: insertion order, reverse, and a rotation
			m.note("map-range-orders-sampled")
			switch m.choose(3) {
			case 1:
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			case 2:
				it.order = append(append([]int(nil), it.order[n/2:]...), it.order[:n/2]...)
			}
		}
	}
	return it
}

// ---- channels (goroutines run synchronously)

func (m *M) send(c *Chan, v value) {
	if c == nil || c.closed {
		m.rtPanic("send on closed channel")
	}
	old := c.buf
	m.onUndo(func() { c.buf = old })
	c.buf = append(append([]value(nil), c.buf...), v)
}

func (m *M) recv(c *Chan, z value) (value, bool) {
	if c != nil && len(c.buf) > 0 {
		old := c.buf
		m.onUndo(func() { c.buf = old })
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if c != nil && c.closed {
		return z, false
	}
	panic(pathAbort{"unsupported", "receive would block"})
}

func opSelect(m *M, fr *frame, ci *cinstr) {
	x := ci.aux.(*ssa.Select)
	res := make(tuple, 2)
	for _, st := range x.States {
		if st.Dir == types.RecvOnly {
			res = append(res, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	res[0], res[1] = smallInts[256-1], false
	ri := 2
	for i, st := range x.States {
		ch, _ := m.get(fr, &ci.args[2*i]).(*Chan)
		if st.Dir == types.RecvOnly {
			if ch != nil && (len(ch.buf) > 0 || ch.closed) {
				v, ok := m.recv(ch, res[ri])
				res[0], res[1], res[ri] = mkInt(int64(i)), ok, v
				fr.regs[ci.dst] = res
				return
			}
			ri++
		} else if ch != nil && !ch.closed {
			m.send(ch, m.get(fr, &ci.args[2*i+1]))
			res[0] = mkInt(int64(i))
			fr.regs[ci.dst] = res
			return
		}
	}
	if x.Blocking {
		panic(pathAbort{"unsupported", "select would block"})
	}
	fr.regs[ci.dst] = res
}

// ---- builtins

func opBuiltin(m *M, fr *frame, ci *cinstr) {
	args := make([]value, len(ci.args))
	for i := range ci.args {
		args[i] = m.get(fr, &ci.args[i])
	}
	fr.regs[ci.dst] = m.builtin(fr, ci.aux.(*ssa.Builtin).Name(), args, ci)
}

func (m *M) builtin(fr *frame, name string, args []value, ci *cinstr) value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return mkInt(int64(strLen(x)))
		case []value:
			return mkInt(int64(len(x)))
		case *Map:
			return mkInt(int64(x.Len()))
		case array:
			return mkInt(int64(len(x)))
		case *value:
			return mkInt(int64(len((*x).(array))))
		case *Chan:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return mkInt(int64(cap(x)))
		case array:
			return mkInt(int64(len(x)))
		case *value:
			return mkInt(int64(len((*x).(array))))
		case *Chan:
			return mkInt(1 << 20)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]value)
		var t []value
		switch y := args[1].(type) {
		case []value:
			t = y
		case string, *SymStr:
			t = strBytes(y)
		}
		if len(t) == 0 {
			return s
		}
		n := len(s)
		if n+len(t) <= cap(s) {
			r := s[:n+len(t)]
			for i, e := range t {
				m.set(&r[n+i], copyVal(e))
			}
			return r
		}
		c := growCap(cap(s), n+len(t))
		r := make([]value, n+len(t), c)
		copy(r, s)
		for i, e := range t {
			r[n+i] = copyVal(e)
		}
		if c > len(r) {
			// spare capacity must hold proper zero values (it can be resliced)
			var z value
			if ci != nil && ci.t != nil {
				if st, ok := ci.t.Underlying().(*types.Slice); ok {
					z = zero(st.Elem())
				}
			}
			if z == nil {
				z = smallInts[256]
			}
			full := r[:c]
			agg := false
			switch z.(type) {
			case structure, array:
				agg = true
			}
			for i := len(r); i < c; i++ {
				if agg {
					full[i] = copyVal(z)
				} else {
					full[i] = z
				}
			}
		}
		return r
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		case string, *SymStr:
			src = strBytes(y)
		}
		n := min(len(dst), len(src))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.set(&dst[i], tmp[i])
		}
		return mkInt(int64(n))
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			m.mapClear(x)
		case []value:
			z := zero(ci.t.Underlying().(*types.Slice).Elem())
			for i := range x {
				m.set(&x[i], copyVal(z))
			}
		}
		return nil
	case "close":
		c := args[0].(*Chan)
		c.closed = true
		m.onUndo(func() { c.closed = false })
		return nil
	case "panic":
		panic(targetPanic{v: args[0], stack: m.stack()})
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking != nil {
			v := fr.caller.panicking.v
			fr.caller.panicking = nil
			return v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less value
			switch x := r.(type) {
			case string, *SymStr:
				less = m.strLess(a, x)
			case float64:
				less = a.(float64) < x
			default:
				s, t := m.intTerm(a, ci.ii.w), m.intTerm(x, ci.ii.w)
				if ci.ii.signed {
					less = fromBool(m.ctx.cmp(OSlt, s, t))
				} else {
					less = fromBool(m.ctx.cmp(OUlt, s, t))
				}
				if lt, ok := less.(*Term); ok {
					if name == "min" {
						r = fromInt(m.ctx.Ite(lt, s, t), ci.ii)
					} else {
						r = fromInt(m.ctx.Ite(lt, t, s), ci.ii)
					}
					continue
				}
			}
			lb := m.branchV(less)
			if lb == (name == "min") {
				r = a
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := m.concInt(args[1])
		switch x := args[0].(type) {
		case sliceData:
			return mkStr(append([]value(nil), x.s[:n]...))
		case strData:
			return strSlice(x.s, 0, n)
		case *value:
			if n == 0 {
				return ""
			}
			if n == 1 {
				return mkStr([]value{*x})
			}
		}
	case "StringData":
		return strData{args[0]}
	case "SliceData":
		s := args[0].([]value)
		if s == nil {
			return (*value)(nil)
		}
		return sliceData{s[:cap(s)]}
	case "Slice":
		n := m.concInt(args[1])
		switch x := args[0].(type) {
		case sliceData:
			return x.s[:n]
		case strData:
			return strBytes(strSlice(x.s, 0, n))
		case *value:
			if x == nil {
				return []value(nil)
			}
			if n == 1 {
				if a, ok := (*x).(array); ok {
					return []value(a)[:1]
				}
			}
			if a, ok := (*x).(array); ok && n <= len(a) {
				return []value(a)[:n]
			}
		}
	case "Add":
		if k, ok := args[1].(int64); ok && k == 0 {
			return args[0]
		}
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("builtin %s(%T...) in %s", name, args[0], m.stack())})
}

func growCap(old, need int) int {
	c := old
	if need > 2*c {
		return roundCap(need)
	}
	if c < 256 {
		c = 2 * c
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	return roundCap(c)
}

// capacities are rounded up a little, as the runtime's size classes do; programs must not depend on it.
func roundCap(n int) int {
	if n < 4 {
		return n
	}
	return (n + 1) &^ 1
}

var debugOn = os.Getenv("GOSYM_DEBUG") != ""
var _ = token.NoPos
