package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []int32
	model  map[string]uint64
}

type subExplore struct {
	stack []workItem
}

// Finding is a candidate violation (before native replay).
type Finding struct {
	Msg     string
	Kind    string // assert, panic, bound
	Choices []choiceRec
	Obs     []string
}

type Explorer struct {
	p         *Program
	harness   *ssa.Function
	name      string
	tier      int
	workers   int
	solverBin string
	timeoutMs int
	maxSteps  int64
	maxPaths  int64
	deadline  time.Time
	verbose   bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []workItem
	active  int
	stopped bool
	stopWhy string

	// results
	Paths      int64
	Infeasible int64
	Aborts     map[string]int
	AbortEx    []Finding
	Findings   map[string][]Finding
	Samples    []Finding
	sampleSeen int
	Asserts    int
	Triv       int
	Queries    int
	DomDecided int
	CacheHits  int
	Audits     int
	AuditOK    int
	Unsat      int
	SatN       int
	UnknownN   int
	SolverTime time.Duration
	Steps      int64
	Reach      map[string]int
	Notes      map[string]int
	Covered    map[string]bool
	MaxDecs    int
	engineErrs []string
	rng        uint64
	MaxSamples int
}

func (ex *Explorer) push(w workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, w)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return workItem{}, false
		}
		if n := len(ex.queue); n > 0 {
			w := ex.queue[n-1]
			ex.queue[n-1] = workItem{}
			ex.queue = ex.queue[:n-1]
			ex.active++
			return w, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	if !ex.stopped {
		if time.Now().After(ex.deadline) {
			ex.stopped, ex.stopWhy = true, "time budget"
			ex.cond.Broadcast()
		}
		if ex.maxPaths > 0 && ex.Paths >= ex.maxPaths {
			ex.stopped, ex.stopWhy = true, "path budget"
			ex.cond.Broadcast()
		}
	}
	ex.mu.Unlock()
}

func newMachine(p *Program, ex *Explorer) *M {
	ctx := NewCtx()
	m := &M{p: p, ctx: ctx, ex: ex, inited: map[*ssa.Package]bool{}, pcSet: map[*Term]bool{}, varCount: map[string]int{},
		notes: map[string]int{}, side: map[string]any{}, pcIdx: map[*Term][]int{}, bitsTab: map[*Term]*bset{}, qcache: map[string]cacheRes{}, audited: map[string]bool{}}
	m.solver = NewSolver(ctx, ex.solverBin, ex.timeoutMs)
	m.maxSteps = 1 << 60
	return m
}

// Run explores the harness to completion (or budget).
func (ex *Explorer) Run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.Aborts = map[string]int{}
	ex.Findings = map[string][]Finding{}
	ex.Reach = map[string]int{}
	ex.Notes = map[string]int{}
	ex.Covered = map[string]bool{}
	ex.queue = append(ex.queue, workItem{model: map[string]uint64{}})
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			ex.worker(id)
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) fail(msg string) {
	ex.mu.Lock()
	if len(ex.engineErrs) < 20 {
		ex.engineErrs = append(ex.engineErrs, msg)
	}
	ex.mu.Unlock()
}

func (ex *Explorer) worker(id int) {
	var m *M
	setup := func() bool {
		ok := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if tp, isT := r.(targetPanic); isT {
						msg = "panic: " + m.panicText(tp)
					}
					ex.fail("setup: " + msg + trimStack())
				}
			}()
			m = newMachine(ex.p, ex)
			m.prepare(ex.harness)
			ok = true
		}()
		return ok
	}
	started := false
	var paths int
	for {
		w, ok := ex.pop()
		if !ok {
			break
		}
		if !started {
			if !setup() {
				ex.mu.Lock()
				ex.stopped, ex.stopWhy = true, "setup failed"
				ex.cond.Broadcast()
				ex.mu.Unlock()
				ex.done()
				break
			}
			started = true
		}
		m.runPath(ex, w)
		paths++
		ex.done()
	}
	if m == nil {
		return
	}
	m.solver.stop()
	ex.mu.Lock()
	ex.Queries += m.solver.Queries
	ex.Unsat += m.solver.Unsat
	ex.SatN += m.solver.Sat
	ex.UnknownN += m.solver.Unknown
	ex.SolverTime += m.solver.Time
	ex.Asserts += m.asserts
	ex.Triv += m.trivAsserts
	ex.Steps += m.totalSteps
	ex.DomDecided += m.domSat + m.domUnsat
	ex.CacheHits += m.cacheHits
	ex.Audits += m.audits
	ex.AuditOK += m.auditOK
	for k, v := range m.notes {
		ex.Notes[k] += v
	}
	ex.p.infos.Range(func(_, v any) bool {
		fi := v.(*fnInfo)
		if fi.repo && fi.id < len(m.covered) && m.covered[fi.id] {
			ex.Covered[fi.name] = true
		}
		return true
	})
	ex.mu.Unlock()
}

func trimStack() string {
	if !debugOn {
		return ""
	}
	return "\n" + string(debug.Stack())
}

// prepare initialises the packages of the repository that the harness depends on, in dependency order.
func (m *M) prepare(harness *ssa.Function) {
	seen := map[string]bool{}
	var visit func(pkg *ssa.Package)
	visit = func(pkg *ssa.Package) {
		if pkg == nil || seen[pkg.Pkg.Path()] {
			return
		}
		seen[pkg.Pkg.Path()] = true
		for _, imp := range pkg.Pkg.Imports() {
			if strings.HasPrefix(imp.Path(), "sigs.k8s.io/controller-tools") {
				visit(m.p.prog.Package(imp))
			}
		}
		m.initPkg(pkg)
	}
	visit(harness.Pkg)
	if f := harness.Pkg.Func("Setup"); f != nil {
		m.call(f, nil, nil)
	}
	for _, n := range setupNames(harness.Name()) {
		if f := harness.Pkg.Func(n); f != nil {
			m.call(f, nil, nil)
		}
	}
}

// setupNames lists the extra setup functions of a harness H_a_b: Setup_a and Setup_a_b.
func setupNames(h string) []string {
	parts := strings.Split(strings.TrimPrefix(h, "H_"), "_")
	var out []string
	for i := range parts {
		out = append(out, "Setup_"+strings.Join(parts[:i+1], "_"))
	}
	return out
}

func (m *M) resetPath(w workItem) {
	m.undoTo(0)
	m.logging = true
	m.depth = 0
	m.curFn = m.curFn[:0]
	m.prefix = w.prefix
	m.decs = m.decs[:0]
	m.truncPC(0)
	m.modelOK = w.model != nil
	clear(m.varCount)
	m.permMaps, m.mapOrder, m.mapTick = 0, 0, 0
	m.sub = nil
	m.speculating = 0
	m.steps = 0
	m.maxSteps = m.ex.maxSteps
	m.obs = m.obs[:0]
	m.reach = m.reach[:0]
	m.choices = m.choices[:0]
	m.symbolic = true
	m.side = map[string]any{}
	if w.model == nil {
		w.model = map[string]uint64{}
	}
	m.ctx.SetModel(w.model)
}

func (m *M) finding(kind, msg string) Finding {
	f := Finding{Msg: msg, Kind: kind}
	for _, c := range m.choices {
		if c.Kind != "choose" {
			if t := m.ctx.vars[c.Name]; t != nil {
				c.Val = m.ctx.Eval(t)
			}
		}
		f.Choices = append(f.Choices, c)
	}
	return f
}

func (m *M) runPath(ex *Explorer, w workItem) {
	m.resetPath(w)
	kind, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case targetPanic:
				m.speculating = 0
				m.symbolic = false
				kind = "panic"
				func() {
					defer func() {
						if r := recover(); r != nil {
							msg = "panic (text unavailable) @ " + x.stack
						}
					}()
					msg = m.panicText(x)
				}()
				m.symbolic = true
			case pathAbort:
				kind, msg = x.kind, x.msg
			case engineErr:
				kind, msg = "unsupported", string(x)+" @ "+m.stack()+trimStack()
			default:
				kind, msg = "unsupported", fmt.Sprint(x)+" @ "+m.stack()
				if debugOn {
					msg += "\n" + string(debug.Stack())
				}
			}
		}()
		m.call(ex.harness, nil, nil)
	}()
	m.totalSteps += m.steps
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Paths++
	if len(m.decs) > ex.MaxDecs {
		ex.MaxDecs = len(m.decs)
	}
	switch kind {
	case "ok", "stop":
		for _, r := range m.reach {
			ex.Reach[r]++
		}
		// reservoir sample of completed paths for native validation
		ex.sampleSeen++
		f := func() Finding {
			f := m.finding("sample", "")
			for _, o := range m.obs {
				f.Obs = append(f.Obs, o.label+"="+m.debugStr(o.v))
			}
			return f
		}
		if len(ex.Samples) < ex.MaxSamples {
			ex.Samples = append(ex.Samples, f())
		} else if ex.MaxSamples > 0 {
			ex.rng = ex.rng*6364136223846793005 + 1442695040888963407
			if k := int((ex.rng >> 33) % uint64(ex.sampleSeen)); k < ex.MaxSamples {
				ex.Samples[k] = f()
			}
		}
	case "infeasible":
		ex.Infeasible++
	case "panic":
		ex.addFinding(m.finding("panic", "panic: "+msg))
	case "bound":
		ex.Aborts["bound: "+msg]++
		if len(ex.AbortEx) < 64 {
			ex.AbortEx = append(ex.AbortEx, m.finding("bound", msg))
		}
	default:
		ex.Aborts[kind+": "+msg]++
		if len(ex.AbortEx) < 64 {
			ex.AbortEx = append(ex.AbortEx, m.finding(kind, msg))
		}
	}
}

func (ex *Explorer) addFinding(f Finding) {
	key := f.Msg
	if f.Kind == "panic" {
		if i := strings.Index(key, " @ "); i > 0 {
			key = key[:i]
		}
	}
	if len(ex.Findings[key]) < 6 {
		ex.Findings[key] = append(ex.Findings[key], f)
	}
	if len(ex.Findings) >= 12 && !ex.stopped {
		ex.stopped, ex.stopWhy = true, "enough counterexamples"
		ex.cond.Broadcast()
	}
}

// assert decides the assertion c on the current path.
func (m *M) assert(v value, msg string) {
	m.asserts++
	c := m.boolTerm(v)
	if c != m.ctx.True && !m.pcSet[c] {
		c = m.simp(c)
	}
	if c == m.ctx.True || m.pcSet[c] {
		m.trivAsserts++
		return
	}
	neg := m.ctx.Not(c)
	if m.sub != nil {
		panic(engineErr("assert inside a merged call"))
	}
	var fail = func() {
		m.ex.mu.Lock()
		m.ex.addFinding(m.finding("assert", msg))
		m.ex.mu.Unlock()
	}
	if c == m.ctx.False {
		fail()
		panic(pathAbort{"stop", ""})
	}
	replaying := len(m.decs) < len(m.prefix)
	if replaying {
		// already decided on the path that spawned this one
		m.require(c)
		return
	}
	m.fixModel()
	r, model := m.query(neg)
	switch r {
	case Unsat:
		m.assume(c)
		return
	case Unknown:
		m.note("solver-unknown-assert: " + msg)
		if debugOn {
			fmt.Fprintf(os.Stderr, "unknown assert: %s\n", c.show(12))
		}
		m.inconclusive = append(m.inconclusive, msg)
		m.require(c)
		return
	}
	old := m.ctx.model
	m.ctx.SetModel(model)
	fail()
	m.ctx.SetModel(old)
	m.require(c)
}

// mergeCall runs a call to a side-effect free function over all its paths and joins the results.
func (m *M) mergeCall(fi *fnInfo, args []value, env []value) (value, bool) {
	return m.mergeRun(func() value {
		old := fi.merge
		_ = old
		return m.callNoMerge(fi, args, env)
	})
}

func (m *M) callNoMerge(fi *fnInfo, args, env []value) value {
	if m.depth > 3000 {
		panic(pathAbort{"bound", "call depth"})
	}
	m.depth++
	if fi.id >= len(m.covered) {
		m.covered = append(m.covered, make([]bool, fi.id+1024-len(m.covered))...)
	}
	m.covered[fi.id] = true
	m.curFn = append(m.curFn, fi)
	fr := &frame{info: fi, regs: make([]value, fi.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[fi.nparams:], env)
	if fi.hasDefer {
		m.runDeferring(fr)
	} else {
		m.run(fr, 0)
	}
	m.curFn = m.curFn[:len(m.curFn)-1]
	m.depth--
	return fr.result
}

func (m *M) mergeRun(body func() value) (result value, ok bool) {
	if m.speculating > 0 {
		panic(specFail{})
	}
	oldSub, oldPrefix, oldDecs := m.sub, m.prefix, m.decs
	oldModel, oldOK := m.ctx.model, m.modelOK
	pcLen := len(m.pc)
	depth, cl := m.depth, len(m.curFn)
	trail := len(m.trail)
	oldLog := m.logging
	m.logging = true
	sub := &subExplore{}
	m.sub = sub
	restore := func() {
		m.truncPC(pcLen)
		m.depth, m.curFn = depth, m.curFn[:cl]
		m.undoTo(trail)
	}
	defer func() {
		m.sub, m.prefix, m.decs = oldSub, oldPrefix, oldDecs
		m.logging = oldLog
		m.ctx.SetModel(oldModel)
		m.modelOK = oldOK
	}()
	type res struct {
		g *Term
		v value
	}
	var out []res
	sub.stack = append(sub.stack, workItem{model: oldModel})
	bad := false
	for len(sub.stack) > 0 && !bad {
		w := sub.stack[len(sub.stack)-1]
		sub.stack = sub.stack[:len(sub.stack)-1]
		m.prefix = w.prefix
		m.decs = nil
		m.modelOK = w.model != nil
		if w.model != nil {
			m.ctx.SetModel(w.model)
		}
		var v value
		dead := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pa, ok := r.(pathAbort); ok && pa.kind == "infeasible" {
						dead = true
						return
					}
					if _, ok := r.(targetPanic); ok {
						bad = true
						return
					}
					restore()
					panic(r)
				}
			}()
			v = body()
		}()
		if !dead && !bad {
			out = append(out, res{m.ctx.And(m.pc[pcLen:]...), v})
		}
		restore()
		if len(out) > 400 {
			bad = true
		}
	}
	if bad || len(out) == 0 {
		return nil, false
	}
	v := out[len(out)-1].v
	for i := len(out) - 2; i >= 0; i-- {
		if !m.mergeable(out[i].v, v, false) {
			return nil, false
		}
	}
	for i := len(out) - 2; i >= 0; i-- {
		v = m.iteV(out[i].g, out[i].v, v, intInfo{64, true})
	}
	return v, true
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = os.Stderr
