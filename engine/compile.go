package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Compilation of ssa.Functions into an executable form. Shared by all workers.

type opndKind uint8

const (
	oReg opndKind = iota
	oConst
	oGlobal
)

type opnd struct {
	kind opndKind
	idx  int
	c    value
}

type cphi struct {
	dst  int
	ops  []opnd
	ii   intInfo
	wide bool
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tRet
	tPanic
)

type cblock struct {
	phis    []cphi
	ins     []cinstr
	kind    termKind
	cond    opnd
	succ    [2]int
	predIdx [2]int // index of this edge among the successor's predecessors
	rets    []opnd
	pv      opnd
	region  *region // if-conversion region, when this block ends in an If
	pos     token.Pos
}

type cinstr struct {
	op      func(m *M, fr *frame, ci *cinstr)
	dst     int
	a, b, c opnd
	d       opnd
	args    []opnd
	t       types.Type
	ii      intInfo
	n       int
	flag    bool
	tok     token.Token
	fi      *fnInfo
	meth    *types.Func
	pure    bool
	aux     any
	pos     token.Pos
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []cblock
	nparams  int
	hasDefer bool
	recover  int
	intr     intrinsic
	perm     bool // map ranges in this function are permuted in permutation mode
	repo     bool
	merge    bool
	id       int
	once     sync.Once
	err      error
	resultN  int
}

type intrinsic func(m *M, fr *frame, args []value) (value, bool)

type Program struct {
	prog       *ssa.Program
	infos      sync.Map // *ssa.Function -> *fnInfo
	nextID     int
	mu         sync.Mutex
	gmu        sync.Mutex
	globals    map[*ssa.Global]int
	globLst    []*ssa.Global
	methods    sync.Map
	implements sync.Map
	repoPath   string
	intr       map[string]intrinsic
	mergeFns   map[string]bool
	models     map[string]*ssa.Function
	errStringT types.Type
	rtOnce     sync.Once
	rtypeType  types.Type
	sizes      types.Sizes
	buildMu    sync.Map
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.globLst)
	p.globals[g] = i
	p.globLst = append(p.globLst, g)
	return i
}

func (p *Program) globalAt(i int) *ssa.Global {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	return p.globLst[i]
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func pkgPathOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
		if o := fn.Origin(); o != nil {
			fn = o
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.infos.Load(fn); ok {
		fi := v.(*fnInfo)
		fi.once.Do(func() { p.compile(fi) })
		return fi
	}
	v, _ := p.infos.LoadOrStore(fn, &fnInfo{fn: fn})
	fi := v.(*fnInfo)
	fi.once.Do(func() { p.compile(fi) })
	return fi
}

func (p *Program) buildPkg(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	v, _ := p.buildMu.LoadOrStore(pkg, &sync.Once{})
	v.(*sync.Once).Do(func() { pkg.Build() })
}

func (p *Program) compile(fi *fnInfo) {
	fn := fi.fn
	fi.name = fnKey(fn)
	p.mu.Lock()
	p.nextID++
	fi.id = p.nextID
	p.mu.Unlock()
	path := pkgPathOf(fn)
	fi.repo = strings.HasPrefix(path, "sigs.k8s.io/controller-tools") && !strings.Contains(path, "zzverif")
	fi.perm = fi.repo || path == "maps" || strings.HasPrefix(path, "k8s.io/apimachinery/pkg/util/sets")
	fi.merge = p.mergeFns[fi.name]
	if in, ok := p.intr[fi.name]; ok {
		fi.intr = in
	}
	if md, ok := p.models[fi.name]; ok && fn != md {
		mi := md
		fi.intr = func(m *M, fr *frame, args []value) (value, bool) {
			return m.call(mi, args, nil), true
		}
	}
	root := fn
	if o := fn.Origin(); o != nil {
		root = o
	}
	for root.Parent() != nil {
		root = root.Parent()
		if o := root.Origin(); o != nil {
			root = o
		}
	}
	if root.Pkg != nil {
		p.buildPkg(root.Pkg)
	}
	if fn.Blocks == nil {
		if fi.intr == nil {
			fi.err = fmt.Errorf("no body for %s", fn)
		}
		return
	}
	fi.nparams = len(fn.Params)
	fi.resultN = fn.Signature.Results().Len()
	regs := map[ssa.Value]int{}
	n := 0
	for _, x := range fn.Params {
		regs[x] = n
		n++
	}
	for _, x := range fn.FreeVars {
		regs[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	operand := func(v ssa.Value) opnd {
		if r, ok := regs[v]; ok {
			return opnd{kind: oReg, idx: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: oConst, c: constVal(x)}
		case *ssa.Global:
			return opnd{kind: oGlobal, idx: p.globalIdx(x)}
		case *ssa.Function:
			return opnd{kind: oConst, c: x}
		case *ssa.Builtin:
			return opnd{kind: oConst, c: x}
		}
		panic(engineErr(fmt.Sprintf("operand %T in %s", v, fn)))
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for k, s := range b.Succs {
			if k < 2 {
				cb.succ[k] = s.Index
				// index of this edge
				cnt := 0
				for kk := 0; kk < k; kk++ {
					if b.Succs[kk] == s {
						cnt++
					}
				}
				for pi, pr := range s.Preds {
					if pr == b {
						if cnt == 0 {
							cb.predIdx[k] = pi
							break
						}
						cnt--
					}
				}
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := cphi{dst: regs[x]}
				ph.ii, _ = basicInt(x.Type())
				ph.wide = ph.ii.w == 64
				for _, e := range x.Edges {
					ph.ops = append(ph.ops, operand(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Jump:
				cb.kind = tJump
				continue
			case *ssa.If:
				cb.kind = tIf
				cb.cond = operand(x.Cond)
				cb.pos = x.Cond.Pos()
				continue
			case *ssa.Return:
				cb.kind = tRet
				for _, r := range x.Results {
					cb.rets = append(cb.rets, operand(r))
				}
				continue
			case *ssa.Panic:
				cb.kind = tPanic
				cb.pv = operand(x.X)
				continue
			case *ssa.Defer:
				fi.hasDefer = true
			}
			ci := p.compileInstr(fi, in, regs, operand)
			ci.pos = in.Pos()
			cb.ins = append(cb.ins, ci)
		}
	}
	fi.findRegions()
}

func constVal(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsInteger != 0:
			ii, _ := basicInt(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return mkInt(ii.norm(i))
			}
			u, _ := constant.Uint64Val(v)
			return mkInt(ii.norm(int64(u)))
		case b.Kind() == types.Float32:
			f, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return float64(f)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Kind() == types.UnsafePointer:
			return (*value)(nil)
		}
	}
	panic(engineErr(fmt.Sprintf("constVal %s", c)))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isFloat(t types.Type) (Sort, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float64, types.UntypedFloat:
			return SF64, true
		case types.Float32:
			return SF32, true
		}
	}
	return 0, false
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p *Program) compileInstr(fi *fnInfo, in ssa.Instruction, regs map[ssa.Value]int, operand func(ssa.Value) opnd) cinstr {
	ci := cinstr{dst: -1}
	if v, ok := in.(ssa.Value); ok {
		ci.dst = regs[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		et := deref(x.Type())
		z := zero(et)
		ci.aux = z
		switch z.(type) {
		case structure, array:
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				p := new(value)
				*p = copyVal(ci.aux)
				fr.regs[ci.dst] = p
			}
		default:
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				p := new(value)
				*p = ci.aux
				fr.regs[ci.dst] = p
			}
		}
	case *ssa.BinOp:
		ci.a, ci.b, ci.tok = operand(x.X), operand(x.Y), x.Op
		ci.pure = true
		p.compileBinOp(&ci, x)
	case *ssa.UnOp:
		ci.a = operand(x.X)
		ci.tok = x.Op
		ci.t = x.Type()
		switch x.Op {
		case token.MUL:
			ci.pure = true
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				fr.regs[ci.dst] = m.load(m.get(fr, &ci.a))
			}
		case token.NOT:
			ci.pure = true
			ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = m.notV(m.get(fr, &ci.a)) }
		case token.SUB:
			ci.pure = true
			if ii, ok := basicInt(x.Type()); ok {
				ci.ii = ii
				ci.op = func(m *M, fr *frame, ci *cinstr) {
					switch v := m.get(fr, &ci.a).(type) {
					case int64:
						fr.regs[ci.dst] = mkInt(ci.ii.norm(-v))
					case *Term:
						fr.regs[ci.dst] = fromInt(m.ctx.Un(ONeg, v), ci.ii)
					}
				}
			} else {
				ci.op = func(m *M, fr *frame, ci *cinstr) {
					switch v := m.get(fr, &ci.a).(type) {
					case float64:
						fr.regs[ci.dst] = -v
					case complex128:
						fr.regs[ci.dst] = -v
					case *Term:
						fr.regs[ci.dst] = fromFloat(m.ctx.Gen(OFNeg, v.sort, 0, v))
					}
				}
			}
		case token.XOR:
			ci.pure = true
			ci.ii, _ = basicInt(x.Type())
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				switch v := m.get(fr, &ci.a).(type) {
				case int64:
					fr.regs[ci.dst] = mkInt(ci.ii.norm(^v))
				case *Term:
					fr.regs[ci.dst] = fromInt(m.ctx.Un(OBNot, v), ci.ii)
				}
			}
		case token.ARROW:
			ci.flag = x.CommaOk
			ci.aux = zero(x.X.Type().Underlying().(*types.Chan).Elem())
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				ch := m.get(fr, &ci.a).(*Chan)
				v, ok := m.recv(ch, ci.aux)
				if ci.flag {
					fr.regs[ci.dst] = tuple{v, ok}
				} else {
					fr.regs[ci.dst] = v
				}
			}
		}
	case *ssa.Call:
		p.compileCall(&ci, &x.Call, operand)
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
			n := x.Call.Value.Name()
			ci.pure = n == "len" || n == "cap" || n == "min" || n == "max"
			ci.op = opBuiltin
		} else {
			ci.op = opCall
		}
	case *ssa.Go:
		p.compileCall(&ci, &x.Call, operand)
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			fn, args := m.prepCall(fr, ci)
			m.callValue(fr, fn, args, ci)
		}
	case *ssa.Defer:
		p.compileCall(&ci, &x.Call, operand)
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			fn, args := m.prepCall(fr, ci)
			fr.defers = append(fr.defers, deferred{fn, args, ci})
		}
	case *ssa.RunDefers:
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			m.runDefers(fr)
			if fr.panicking != nil {
				tp := *fr.panicking
				fr.panicking = nil
				panic(tp)
			}
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := in.Operands(nil)
		ci.a = operand(*ops[0])
		ci.pure = true
		ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = m.get(fr, &ci.a) }
	case *ssa.Convert:
		ci.a = operand(x.X)
		ci.pure = true
		p.compileConvert(&ci, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		ci.a = operand(x.X)
		p.compileConvert(&ci, x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		ci.a = operand(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		ci.n = n
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			s := m.get(fr, &ci.a).([]value)
			if len(s) < ci.n {
				m.rtPanic("cannot convert slice to array pointer: too short")
			}
			if s == nil {
				fr.regs[ci.dst] = (*value)(nil)
				return
			}
			p := new(value)
			*p = array(s[:ci.n:ci.n])
			fr.regs[ci.dst] = p
		}
	case *ssa.MakeInterface:
		ci.a = operand(x.X)
		ci.t = canon(x.X.Type())
		ci.pure = true
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			fr.regs[ci.dst] = iface{ci.t, m.get(fr, &ci.a)}
		}
	case *ssa.MakeClosure:
		ci.aux = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ci.args = append(ci.args, operand(b))
		}
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			env := make([]value, len(ci.args))
			for i := range ci.args {
				env[i] = m.get(fr, &ci.args[i])
			}
			fr.regs[ci.dst] = &closure{ci.aux.(*ssa.Function), env}
		}
	case *ssa.MakeMap:
		ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = newMap() }
	case *ssa.MakeChan:
		ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = &Chan{} }
	case *ssa.MakeSlice:
		ci.a, ci.b = operand(x.Len), operand(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		ci.t = et
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			n := m.concInt(m.get(fr, &ci.a))
			c := m.concInt(m.get(fr, &ci.b))
			if n < 0 || n > 1<<24 {
				m.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<24 {
				m.rtPanic("makeslice: cap out of range")
			}
			s := make([]value, c)
			z := zero(ci.t)
			_, isS := z.(structure)
			_, isA := z.(array)
			for i := range s {
				if (isS || isA) && i > 0 {
					s[i] = copyVal(z)
				} else {
					s[i] = z
				}
			}
			fr.regs[ci.dst] = s[:n:c]
		}
	case *ssa.Slice:
		ci.a = operand(x.X)
		if x.Low != nil {
			ci.b = operand(x.Low)
		} else {
			ci.b = opnd{kind: oConst}
		}
		if x.High != nil {
			ci.c = operand(x.High)
		} else {
			ci.c = opnd{kind: oConst}
		}
		if x.Max != nil {
			ci.d = operand(x.Max)
		} else {
			ci.d = opnd{kind: oConst}
		}
		ci.op = opSlice
		ci.pure = true
	case *ssa.FieldAddr:
		ci.a = operand(x.X)
		ci.n = x.Field
		ci.pure = true
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			p, ok := m.get(fr, &ci.a).(*value)
			if !ok {
				panic(engineErr(fmt.Sprintf("FieldAddr on %T in %s", m.get(fr, &ci.a), fr.info.name)))
			}
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structure)
			if !ok {
				panic(engineErr(fmt.Sprintf("FieldAddr into %T in %s", *p, fr.info.name)))
			}
			fr.regs[ci.dst] = &s[ci.n]
		}
	case *ssa.Field:
		ci.a = operand(x.X)
		ci.n = x.Field
		ci.pure = true
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			fr.regs[ci.dst] = m.get(fr, &ci.a).(structure)[ci.n]
		}
	case *ssa.IndexAddr:
		ci.a, ci.b = operand(x.X), operand(x.Index)
		ci.pure = true
		ci.ii, _ = basicInt(x.Index.Type())
		ci.op = opIndexAddr
		lo := true
		if rs := x.Referrers(); rs != nil {
			for _, r := range *rs {
				switch u := r.(type) {
				case *ssa.UnOp:
					if u.Op != token.MUL {
						lo = false
					}
				case *ssa.DebugRef:
				default:
					lo = false
				}
			}
		}
		if lo {
			et := deref(x.Type())
			if ei, ok := basicInt(et); ok {
				ci.aux = loadOnly{ei}
			} else if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				ci.aux = loadOnly{}
			}
		}
	case *ssa.Index:
		ci.a, ci.b = operand(x.X), operand(x.Index)
		ci.pure = true
		ci.ii, _ = basicInt(x.Index.Type())
		ci.t = x.Type()
		ci.op = opIndex
	case *ssa.Lookup:
		ci.a, ci.b = operand(x.X), operand(x.Index)
		ci.flag = x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			ci.aux = zero(mt.Elem())
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				v, ok := m.mapGet(m.get(fr, &ci.a).(*Map), m.get(fr, &ci.b))
				if !ok {
					v = ci.aux
				}
				v = copyVal(v)
				if ci.flag {
					fr.regs[ci.dst] = tuple{v, ok}
				} else {
					fr.regs[ci.dst] = v
				}
			}
		} else {
			ci.pure = true
			ci.ii, _ = basicInt(x.Index.Type())
			ci.op = opIndex
		}
	case *ssa.Extract:
		ci.a = operand(x.Tuple)
		ci.n = x.Index
		ci.pure = true
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			fr.regs[ci.dst] = m.get(fr, &ci.a).(tuple)[ci.n]
		}
	case *ssa.Store:
		ci.a, ci.b = operand(x.Addr), operand(x.Val)
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			p, ok := m.get(fr, &ci.a).(*value)
			if !ok {
				panic(engineErr(fmt.Sprintf("Store to %T in %s", m.get(fr, &ci.a), fr.info.name)))
			}
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			m.store(p, m.get(fr, &ci.b))
		}
	case *ssa.MapUpdate:
		ci.a, ci.b, ci.c = operand(x.Map), operand(x.Key), operand(x.Value)
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			m.mapSet(m.get(fr, &ci.a).(*Map), m.get(fr, &ci.b), m.get(fr, &ci.c))
		}
	case *ssa.Range:
		ci.a = operand(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				fr.regs[ci.dst] = m.rangeMap(fr, m.get(fr, &ci.a).(*Map))
			}
		} else {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				fr.regs[ci.dst] = &strIter{s: m.get(fr, &ci.a)}
			}
		}
	case *ssa.Next:
		ci.a = operand(x.Iter)
		if x.IsString {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				it := m.get(fr, &ci.a).(*strIter)
				if it.pos >= strLen(it.s) {
					fr.regs[ci.dst] = tuple{false, smallInts[256], smallInts[256]}
					return
				}
				r, n := m.decodeRune(it.s, it.pos)
				i := it.pos
				it.pos += n
				fr.regs[ci.dst] = tuple{true, mkInt(int64(i)), r}
			}
		} else {
			tt := x.Type().(*types.Tuple)
			zk, zv := value(nil), value(nil)
			if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				zk = zero(tt.At(1).Type())
			}
			if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				zv = zero(tt.At(2).Type())
			}
			ci.aux = tuple{false, zk, zv}
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				it := m.get(fr, &ci.a).(*mapIter)
				for it.pos < len(it.order) {
					i := it.order[it.pos]
					it.pos++
					if i < len(it.m.live) && it.m.live[i] {
						fr.regs[ci.dst] = tuple{true, it.m.keys[i], copyVal(it.m.vals[i])}
						return
					}
				}
				fr.regs[ci.dst] = ci.aux
			}
		}
	case *ssa.TypeAssert:
		ci.a = operand(x.X)
		ci.flag = x.CommaOk
		ci.t = canon(x.AssertedType)
		_, isI := ci.t.Underlying().(*types.Interface)
		ci.n = 0
		if isI {
			ci.n = 1
		}
		ci.aux = zero(x.AssertedType)
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			v := m.get(fr, &ci.a).(iface)
			ok := false
			var r value
			if v.t != nil {
				if ci.n == 1 {
					if m.implements(v.t, ci.t) {
						ok, r = true, v
					}
				} else if v.t == ci.t {
					ok, r = true, v.v
				}
			}
			if !ok {
				if !ci.flag {
					m.rtPanicIface(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, ci.t))
				}
				r = ci.aux
			}
			if ci.flag {
				fr.regs[ci.dst] = tuple{r, ok}
			} else {
				fr.regs[ci.dst] = r
			}
		}
	case *ssa.Select:
		ci.aux = x
		for _, st := range x.States {
			ci.args = append(ci.args, operand(st.Chan))
			if st.Send != nil {
				ci.args = append(ci.args, operand(st.Send))
			} else {
				ci.args = append(ci.args, opnd{kind: oConst})
			}
		}
		ci.op = opSelect
	case *ssa.Send:
		ci.a, ci.b = operand(x.Chan), operand(x.X)
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			m.send(m.get(fr, &ci.a).(*Chan), m.get(fr, &ci.b))
		}
	default:
		panic(engineErr(fmt.Sprintf("unsupported instruction %T in %s", in, fi.name)))
	}
	return ci
}

func (p *Program) compileCall(ci *cinstr, c *ssa.CallCommon, operand func(ssa.Value) opnd) {
	if c.IsInvoke() {
		ci.meth = c.Method
		ci.a = operand(c.Value)
	} else {
		ci.a = operand(c.Value)
		if b, ok := c.Value.(*ssa.Builtin); ok {
			ci.aux = b
			// types needed by some builtins
			if len(c.Args) > 0 {
				ci.t = c.Args[0].Type()
			}
			if s := c.Signature(); s != nil && s.Results().Len() > 0 {
				ci.ii, _ = basicInt(s.Results().At(0).Type())
			}
			ci.tok = token.ILLEGAL
		}
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, operand(a))
	}
}

func (p *Program) compileBinOp(ci *cinstr, x *ssa.BinOp) {
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		ci.flag = neg
		// interface compared with nil etc. share representation
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
			var r value
			if x, ok := a.(int64); ok {
				if y, ok := b.(int64); ok {
					fr.regs[ci.dst] = (x == y) != ci.flag
					return
				}
			}
			r = m.equals(a, b)
			if ci.flag {
				r = m.notV(r)
			}
			fr.regs[ci.dst] = r
		}
		return
	}
	if ii, ok := basicInt(t); ok {
		ci.ii = ii
		switch x.Op {
		case token.SHL, token.SHR:
			yi, _ := basicInt(x.Y.Type())
			ci.aux = yi
			ci.op = opShift
			return
		case token.QUO, token.REM:
			ci.op = opDivRem
			return
		}
		var op Op
		var f func(a, b int64, ii intInfo) int64
		switch x.Op {
		case token.ADD:
			op, f = OAdd, func(a, b int64, ii intInfo) int64 { return ii.norm(a + b) }
		case token.SUB:
			op, f = OSub, func(a, b int64, ii intInfo) int64 { return ii.norm(a - b) }
		case token.MUL:
			op, f = OMul, func(a, b int64, ii intInfo) int64 { return ii.norm(a * b) }
		case token.AND:
			op, f = OBAnd, func(a, b int64, ii intInfo) int64 { return a & b }
		case token.OR:
			op, f = OBOr, func(a, b int64, ii intInfo) int64 { return ii.norm(a | b) }
		case token.XOR:
			op, f = OBXor, func(a, b int64, ii intInfo) int64 { return ii.norm(a ^ b) }
		case token.AND_NOT:
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
				if x, ok := a.(int64); ok {
					if y, ok := b.(int64); ok {
						fr.regs[ci.dst] = mkInt(x &^ y)
						return
					}
				}
				fr.regs[ci.dst] = fromInt(m.ctx.Bin(OBAnd, m.intTerm(a, ci.ii.w), m.ctx.Un(OBNot, m.intTerm(b, ci.ii.w))), ci.ii)
			}
			return
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			tok := x.Op
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
				if x, ok := a.(int64); ok {
					if y, ok := b.(int64); ok {
						var r bool
						if ci.ii.signed {
							switch tok {
							case token.LSS:
								r = x < y
							case token.LEQ:
								r = x <= y
							case token.GTR:
								r = x > y
							default:
								r = x >= y
							}
						} else {
							ux, uy := uint64(x), uint64(y)
							switch tok {
							case token.LSS:
								r = ux < uy
							case token.LEQ:
								r = ux <= uy
							case token.GTR:
								r = ux > uy
							default:
								r = ux >= uy
							}
						}
						fr.regs[ci.dst] = r
						return
					}
				}
				s, t := m.intTerm(a, ci.ii.w), m.intTerm(b, ci.ii.w)
				lt, le := OSlt, OSle
				if !ci.ii.signed {
					lt, le = OUlt, OUle
				}
				var r *Term
				switch tok {
				case token.LSS:
					r = m.ctx.cmp(lt, s, t)
				case token.LEQ:
					r = m.ctx.cmp(le, s, t)
				case token.GTR:
					r = m.ctx.cmp(lt, t, s)
				default:
					r = m.ctx.cmp(le, t, s)
				}
				fr.regs[ci.dst] = fromBool(r)
			}
			return
		default:
			panic(engineErr("int binop " + x.Op.String()))
		}
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
			if x, ok := a.(int64); ok {
				if y, ok := b.(int64); ok {
					fr.regs[ci.dst] = mkInt(f(x, y, ci.ii))
					return
				}
			}
			fr.regs[ci.dst] = fromInt(m.ctx.Bin(op, m.intTerm(a, ci.ii.w), m.intTerm(b, ci.ii.w)), ci.ii)
		}
		return
	}
	if fs, ok := isFloat(t); ok {
		tok := x.Op
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
			if x, ok := a.(float64); ok {
				if y, ok := b.(float64); ok {
					fr.regs[ci.dst] = floatOp(tok, x, y, fs)
					return
				}
			}
			s, t := m.floatTerm(a, fs), m.floatTerm(b, fs)
			switch tok {
			case token.ADD:
				fr.regs[ci.dst] = fromFloat(m.ctx.FBin(OFAdd, s, t))
			case token.SUB:
				fr.regs[ci.dst] = fromFloat(m.ctx.FBin(OFSub, s, t))
			case token.MUL:
				fr.regs[ci.dst] = fromFloat(m.ctx.FBin(OFMul, s, t))
			case token.QUO:
				fr.regs[ci.dst] = fromFloat(m.ctx.FBin(OFDiv, s, t))
			case token.LSS:
				fr.regs[ci.dst] = fromBool(m.ctx.FCmp(OFLt, s, t))
			case token.LEQ:
				fr.regs[ci.dst] = fromBool(m.ctx.FCmp(OFLe, s, t))
			case token.GTR:
				fr.regs[ci.dst] = fromBool(m.ctx.FCmp(OFLt, t, s))
			case token.GEQ:
				fr.regs[ci.dst] = fromBool(m.ctx.FCmp(OFLe, t, s))
			}
		}
		return
	}
	if isStr(t) {
		tok := x.Op
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
			switch tok {
			case token.ADD:
				fr.regs[ci.dst] = strConcat(a, b)
			case token.LSS:
				fr.regs[ci.dst] = m.strLess(a, b)
			case token.GTR:
				fr.regs[ci.dst] = m.strLess(b, a)
			case token.LEQ:
				fr.regs[ci.dst] = m.notV(m.strLess(b, a))
			case token.GEQ:
				fr.regs[ci.dst] = m.notV(m.strLess(a, b))
			}
		}
		return
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		tok := x.Op
		ci.op = func(m *M, fr *frame, ci *cinstr) {
			a, b := m.get(fr, &ci.a).(complex128), m.get(fr, &ci.b).(complex128)
			switch tok {
			case token.ADD:
				fr.regs[ci.dst] = a + b
			case token.SUB:
				fr.regs[ci.dst] = a - b
			case token.MUL:
				fr.regs[ci.dst] = a * b
			case token.QUO:
				fr.regs[ci.dst] = a / b
			}
		}
		return
	}
	// boolean & | on bools do not exist in Go
	panic(engineErr(fmt.Sprintf("binop %s on %s", x.Op, t)))
}

func floatOp(tok token.Token, x, y float64, fs Sort) value {
	r := func(f float64) value {
		if fs == SF32 {
			return float64(float32(f))
		}
		return f
	}
	switch tok {
	case token.ADD:
		return r(x + y)
	case token.SUB:
		return r(x - y)
	case token.MUL:
		return r(x * y)
	case token.QUO:
		return r(x / y)
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	}
	panic(engineErr("floatOp"))
}

func opShift(m *M, fr *frame, ci *cinstr) {
	a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
	yi := ci.aux.(intInfo)
	if y, ok := b.(int64); ok {
		if yi.signed && y < 0 {
			m.rtPanic("negative shift amount")
		}
		if x, ok := a.(int64); ok {
			uy := uint64(y)
			var r int64
			if ci.tok == token.SHL {
				if uy < 64 {
					r = x << uy
				}
			} else if ci.ii.signed {
				if uy > 63 {
					uy = 63
				}
				r = x >> uy
			} else if uy < 64 {
				r = int64(uint64(x) >> uy)
			}
			fr.regs[ci.dst] = mkInt(ci.ii.norm(r))
			return
		}
	}
	w := ci.ii.w
	var sh *Term
	if y, ok := b.(int64); ok {
		if uint64(y) > 255 {
			y = 255
		}
		if w == 8 && y > 8 {
			y = 8
		}
		sh = m.ctx.BV(uint64(y), w)
	} else {
		yt := b.(*Term)
		if yi.signed {
			if m.branchT(m.ctx.cmp(OSlt, yt, m.ctx.BV(0, yt.sort))) {
				m.rtPanic("negative shift amount")
			}
		}
		if yt.sort > w {
			// saturate
			big := m.ctx.cmp(OUle, m.ctx.BV(uint64(w), yt.sort), yt)
			sh = m.ctx.Ite(big, m.ctx.BV(uint64(w), w), m.ctx.Trunc(yt, w))
		} else {
			sh = m.ctx.ZExt(yt, w)
		}
	}
	op := OShl
	if ci.tok == token.SHR {
		op = OLShr
		if ci.ii.signed {
			op = OAShr
		}
	}
	fr.regs[ci.dst] = fromInt(m.ctx.Bin(op, m.intTerm(a, w), sh), ci.ii)
}

func opDivRem(m *M, fr *frame, ci *cinstr) {
	a, b := m.get(fr, &ci.a), m.get(fr, &ci.b)
	if y, ok := b.(int64); ok {
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if x, ok := a.(int64); ok {
			var r int64
			switch {
			case ci.ii.signed && ci.tok == token.QUO:
				if y == -1 {
					r = -x
				} else {
					r = x / y
				}
			case ci.ii.signed:
				if y == -1 {
					r = 0
				} else {
					r = x % y
				}
			case ci.tok == token.QUO:
				r = int64(uint64(x) / uint64(y))
			default:
				r = int64(uint64(x) % uint64(y))
			}
			fr.regs[ci.dst] = mkInt(ci.ii.norm(r))
			return
		}
	} else if m.branchT(m.ctx.Eq(b.(*Term), m.ctx.BV(0, ci.ii.w))) {
		m.rtPanic("integer divide by zero")
	}
	op := OUDiv
	switch {
	case ci.ii.signed && ci.tok == token.QUO:
		op = OSDiv
	case ci.ii.signed:
		op = OSRem
	case ci.tok == token.REM:
		op = OURem
	}
	fr.regs[ci.dst] = fromInt(m.ctx.Bin(op, m.intTerm(a, ci.ii.w), m.intTerm(b, ci.ii.w)), ci.ii)
}

func (p *Program) compileConvert(ci *cinstr, from, to types.Type) {
	ci.t = to
	uf, ut := from.Underlying(), to.Underlying()
	if fi, ok := basicInt(from); ok {
		if ti, ok := basicInt(to); ok {
			ci.ii = ti
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				switch v := m.get(fr, &ci.a).(type) {
				case int64:
					fr.regs[ci.dst] = mkInt(ti.norm(v))
				case *Term:
					if ti.w <= fi.w {
						fr.regs[ci.dst] = fromInt(m.ctx.Trunc(v, ti.w), ti)
					} else if fi.signed {
						fr.regs[ci.dst] = fromInt(m.ctx.SExt(v, ti.w), ti)
					} else {
						fr.regs[ci.dst] = fromInt(m.ctx.ZExt(v, ti.w), ti)
					}
				default:
					fr.regs[ci.dst] = v // uintptr of pointer
				}
			}
			return
		}
		if fs, ok := isFloat(to); ok {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				switch v := m.get(fr, &ci.a).(type) {
				case int64:
					var f float64
					if fi.signed {
						f = float64(v)
						if fs == SF32 {
							f = float64(float32(v))
						}
					} else {
						f = float64(uint64(v))
						if fs == SF32 {
							f = float64(float32(uint64(v)))
						}
					}
					fr.regs[ci.dst] = f
				case *Term:
					if fi.signed {
						fr.regs[ci.dst] = fromFloat(m.ctx.Gen(OSToF, fs, 0, v))
					} else {
						fr.regs[ci.dst] = fromFloat(m.ctx.Gen(OUToF, fs, 0, v))
					}
				}
			}
			return
		}
		if isStr(to) {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				fr.regs[ci.dst] = m.runeToStr(m.get(fr, &ci.a), fi)
			}
			return
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = m.get(fr, &ci.a) }
			return
		}
	}
	if fs, ok := isFloat(from); ok {
		if ti, ok := basicInt(to); ok {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				switch v := m.get(fr, &ci.a).(type) {
				case float64:
					if ti.signed {
						fr.regs[ci.dst] = mkInt(ti.norm(int64(v)))
					} else {
						fr.regs[ci.dst] = mkInt(ti.norm(int64(uint64(v))))
					}
				case *Term:
					if ti.signed {
						fr.regs[ci.dst] = fromInt(m.ctx.Gen(OFToS, ti.w, 0, v), ti)
					} else {
						fr.regs[ci.dst] = fromInt(m.ctx.Gen(OFToU, ti.w, 0, v), ti)
					}
				}
			}
			return
		}
		if ts, ok := isFloat(to); ok {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				switch v := m.get(fr, &ci.a).(type) {
				case float64:
					if ts == SF32 {
						v = float64(float32(v))
					}
					fr.regs[ci.dst] = v
				case *Term:
					if ts == fs {
						fr.regs[ci.dst] = v
					} else {
						fr.regs[ci.dst] = fromFloat(m.ctx.Gen(OFToF, ts, 0, v))
					}
				}
			}
			return
		}
	}
	if isStr(from) {
		if s, ok := ut.(*types.Slice); ok {
			ei, _ := basicInt(s.Elem())
			if ei.w == 8 {
				ci.op = func(m *M, fr *frame, ci *cinstr) {
					b := strBytes(m.get(fr, &ci.a))
					fr.regs[ci.dst] = append(make([]value, 0, len(b)), b...)
				}
			} else {
				ci.op = func(m *M, fr *frame, ci *cinstr) {
					s := m.get(fr, &ci.a)
					out := []value{}
					for i := 0; i < strLen(s); {
						r, n := m.decodeRune(s, i)
						out = append(out, r)
						i += n
					}
					fr.regs[ci.dst] = out
				}
			}
			return
		}
		if isStr(to) {
			ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = m.get(fr, &ci.a) }
			return
		}
	}
	if s, ok := uf.(*types.Slice); ok && isStr(to) {
		ei, _ := basicInt(s.Elem())
		if ei.w == 8 {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				b := m.get(fr, &ci.a).([]value)
				fr.regs[ci.dst] = mkStr(append([]value(nil), b...))
			}
		} else {
			ci.op = func(m *M, fr *frame, ci *cinstr) {
				var out value = ""
				for _, r := range m.get(fr, &ci.a).([]value) {
					out = strConcat(out, m.runeToStr(r, ei))
				}
				fr.regs[ci.dst] = out
			}
		}
		return
	}
	// pointers, unsafe pointers, complex, channels, funcs: representation unchanged
	if b, ok := ut.(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = m.get(fr, &ci.a) }
		return
	}
	ci.op = func(m *M, fr *frame, ci *cinstr) { fr.regs[ci.dst] = m.get(fr, &ci.a) }
}

var _ = math.MaxInt64
