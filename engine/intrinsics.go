package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

const symPkg = "sigs.k8s.io/controller-tools/pkg/zzverif/sym."

// packages whose initialisers are not run (their state is never needed)
var skipInit = map[string]bool{
	"runtime": true, "os": false, "syscall": true, "internal/cpu": true, "internal/poll": true, "net": true, "time": false,
	"internal/godebug": true, "crypto/rand": true, "log": false, "os/exec": true, "os/signal": true, "internal/abi": true,
	"k8s.io/klog/v2": true, "flag": false, "google.golang.org/protobuf/internal/impl": true,
}

func (m *M) str(v value) value { return v }

func ok(v value) (value, bool) { return v, true }

func mkIntrinsics() map[string]intrinsic {
	t := map[string]intrinsic{}
	// nondeterminism ------------------------------------------------------------------------------------------------
	t[symPkg+"Bool"] = func(m *M, fr *frame, a []value) (value, bool) {
		return m.newVar(a[0].(string), SBool), true
	}
	for name, w := range map[string]Sort{"Byte": 8, "Int64": 64, "Int32": 32, "Uint16": 16, "Uint64": 64, "Int": 64, "Rune": 32} {
		w := w
		t[symPkg+name] = func(m *M, fr *frame, a []value) (value, bool) { return m.newVar(a[0].(string), w), true }
	}
	t[symPkg+"IntIn"] = func(m *M, fr *frame, a []value) (value, bool) {
		v := m.newVar(a[0].(string), 64)
		lo, hi := m.intTerm(a[1], 64), m.intTerm(a[2], 64)
		m.require(m.ctx.And(m.ctx.cmp(OSle, lo, v), m.ctx.cmp(OSle, v, hi)))
		return v, true
	}
	t[symPkg+"Float64"] = func(m *M, fr *frame, a []value) (value, bool) {
		v := m.newVar(a[0].(string), 64)
		return m.ctx.Gen(OBitsToF, SF64, 0, v), true
	}
	t[symPkg+"Choose"] = func(m *M, fr *frame, a []value) (value, bool) {
		n := m.concInt(a[1])
		k := m.choose(n)
		m.recChoice(a[0].(string), uint64(k))
		return mkInt(int64(k)), true
	}
	symString := func(m *M, name string, lo, hi int, alpha string) value {
		n := lo
		if hi > lo {
			k := m.choose(hi - lo + 1)
			n = lo + k
			m.recChoice(name+".len", uint64(n))
		}
		b := make([]value, n)
		for i := range b {
			v := m.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
			if alpha != "" {
				m.require(alphaTerm(m.ctx, v, alpha))
			}
			b[i] = v
		}
		return mkStr(b)
	}
	t[symPkg+"String"] = func(m *M, fr *frame, a []value) (value, bool) {
		return symString(m, a[0].(string), 0, m.concInt(a[1]), ""), true
	}
	t[symPkg+"StringOf"] = func(m *M, fr *frame, a []value) (value, bool) {
		return symString(m, a[0].(string), m.concInt(a[1]), m.concInt(a[2]), a[3].(string)), true
	}
	t[symPkg+"Assume"] = func(m *M, fr *frame, a []value) (value, bool) {
		if m.symbolic {
			m.require(m.boolTerm(a[0]))
		} else if a[0] == false {
			panic(pathAbort{"infeasible", ""})
		}
		return nil, true
	}
	t[symPkg+"Assert"] = func(m *M, fr *frame, a []value) (value, bool) {
		m.assert(a[0], m.debugStr(a[1]))
		return nil, true
	}
	t[symPkg+"Reach"] = func(m *M, fr *frame, a []value) (value, bool) {
		m.reach = append(m.reach, m.debugStr(a[0]))
		return nil, true
	}
	t[symPkg+"Observe"] = func(m *M, fr *frame, a []value) (value, bool) {
		m.obs = append(m.obs, obsRec{m.debugStr(a[0]), a[1]})
		return nil, true
	}
	t[symPkg+"PermuteMaps"] = func(m *M, fr *frame, a []value) (value, bool) {
		m.permMaps = m.concInt(a[0])
		return nil, true
	}
	t[symPkg+"MapOrder"] = func(m *M, fr *frame, a []value) (value, bool) {
		m.mapOrder = m.concInt(a[0])
		m.mapTick = 0
		return nil, true
	}
	t[symPkg+"Tier"] = func(m *M, fr *frame, a []value) (value, bool) { return mkInt(int64(m.ex.tier)), true }
	t[symPkg+"Symbolic"] = func(m *M, fr *frame, a []value) (value, bool) { return true, true }
	t[symPkg+"Merge"] = func(m *M, fr *frame, a []value) (value, bool) {
		if !m.symbolic {
			return m.callFunc(a[0]), true
		}
		if v, ok := m.mergeRun(func() value { return m.callFunc(a[0]) }); ok {
			return v, true
		}
		m.note("merge-fallback")
		return m.callFunc(a[0]), true
	}
	t[symPkg+"And"] = func(m *M, fr *frame, a []value) (value, bool) {
		var r value = true
		for _, x := range a[0].([]value) {
			r = m.andV(r, x)
		}
		return r, true
	}
	t[symPkg+"Or"] = func(m *M, fr *frame, a []value) (value, bool) {
		var r value = true
		for _, x := range a[0].([]value) {
			r = m.andV(r, m.notV(x))
		}
		return m.notV(r), true
	}
	t[symPkg+"Implies"] = func(m *M, fr *frame, a []value) (value, bool) {
		return m.notV(m.andV(a[0], m.notV(a[1]))), true
	}
	t[symPkg+"Iff"] = func(m *M, fr *frame, a []value) (value, bool) {
		return m.equals(a[0], a[1]), true
	}
	t[symPkg+"StrEq"] = func(m *M, fr *frame, a []value) (value, bool) { return m.strEq(a[0], a[1]), true }
	t[symPkg+"Debug"] = func(m *M, fr *frame, a []value) (value, bool) {
		if debugOn {
			fmt.Fprintln(os.Stderr, "DEBUG", m.debugStr(m.sprint(a[0].([]value), true)))
		}
		return nil, true
	}
	t[symPkg+"DeepEqual"] = func(m *M, fr *frame, a []value) (value, bool) {
		return m.deepEqual(a[0], a[1], 0), true
	}
	t[symPkg+"Concretize"] = func(m *M, fr *frame, a []value) (value, bool) {
		b := strBytes(a[0])
		out := make([]value, len(b))
		for i, x := range b {
			if tm, ok := x.(*Term); ok {
				out[i] = mkInt(int64(m.concTerm(tm)))
			} else {
				out[i] = x
			}
		}
		return mkStr(out), true
	}

	// runtime & friends ---------------------------------------------------------------------------------------------
	nop := func(m *M, fr *frame, a []value) (value, bool) { return nil, true }
	for _, n := range []string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock",
		"(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*sync.Pool).Put", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Gosched",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal",
		"(*internal/godebug.Setting).IncNonDefault", "(*strings.Builder).copyCheck", "runtime/debug.SetGCPercent",
		"(*internal/godebug.Setting).register", "internal/race.Acquire", "internal/race.Release",
	} {
		t[n] = nop
	}
	t["(*sync.Mutex).TryLock"] = func(m *M, fr *frame, a []value) (value, bool) { return true, true }
	t["(*internal/godebug.Setting).Value"] = func(m *M, fr *frame, a []value) (value, bool) { return "", true }
	t["internal/godebug.New"] = func(m *M, fr *frame, a []value) (value, bool) {
		p := new(value)
		*p = structure{a[0], (*value)(nil)}
		return p, true
	}
	t["(*sync.Pool).Get"] = func(m *M, fr *frame, a []value) (value, bool) {
		p := a[0].(*value)
		s := (*p).(structure)
		nf := s[len(s)-1]
		if f, ok := nf.(interface{}); ok && f != nil {
			if isNilFunc(nf) {
				return iface{}, true
			}
			return m.callFunc(nf), true
		}
		return iface{}, true
	}
	t["runtime.GOMAXPROCS"] = func(m *M, fr *frame, a []value) (value, bool) { return mkInt(1), true }
	t["runtime.NumCPU"] = t["runtime.GOMAXPROCS"]
	t["runtime.Caller"] = func(m *M, fr *frame, a []value) (value, bool) {
		return tuple{mkInt(0), "", mkInt(0), false}, true
	}
	t["runtime.Callers"] = func(m *M, fr *frame, a []value) (value, bool) { return mkInt(0), true }
	t["runtime/debug.ReadBuildInfo"] = func(m *M, fr *frame, a []value) (value, bool) {
		return tuple{(*value)(nil), false}, true
	}
	t["os.Getenv"] = func(m *M, fr *frame, a []value) (value, bool) { return "", true }
	t["syscall.Getenv"] = func(m *M, fr *frame, a []value) (value, bool) { return tuple{"", false}, true }
	t["os.LookupEnv"] = t["syscall.Getenv"]
	t["os.Getwd"] = func(m *M, fr *frame, a []value) (value, bool) { return tuple{"/verifwork", iface{}}, true }
	t["os.NewFile"] = func(m *M, fr *frame, a []value) (value, bool) {
		p := new(value)
		*p = structure{(*value)(nil)}
		return p, true
	}
	t["(*os.File).Write"] = func(m *M, fr *frame, a []value) (value, bool) {
		return tuple{mkInt(int64(len(a[1].([]value)))), iface{}}, true
	}
	t["(*os.File).WriteString"] = func(m *M, fr *frame, a []value) (value, bool) {
		return tuple{mkInt(int64(strLen(a[1]))), iface{}}, true
	}
	t["os.runtime_args"] = func(m *M, fr *frame, a []value) (value, bool) { return []value{"x"}, true }
	t["(*os.File).Fd"] = func(m *M, fr *frame, a []value) (value, bool) { return mkInt(3), true }
	t["github.com/mattn/go-isatty.IsTerminal"] = func(m *M, fr *frame, a []value) (value, bool) { return false, true }
	t["os.Exit"] = func(m *M, fr *frame, a []value) (value, bool) { panic(pathAbort{"unsupported", "os.Exit"}) }
	t["syscall.runtime_envs"] = func(m *M, fr *frame, a []value) (value, bool) { return []value(nil), true }
	t["time.runtimeNano"] = func(m *M, fr *frame, a []value) (value, bool) { return mkInt(1), true }
	t["time.Now"] = func(m *M, fr *frame, a []value) (value, bool) {
		return structure{mkInt(0), mkInt(0), (*value)(nil)}, true
	}
	t["(*internal/poll.FD).Init"] = func(m *M, fr *frame, a []value) (value, bool) { return iface{}, true }
	t["hash/maphash.runtime_rand"] = func(m *M, fr *frame, a []value) (value, bool) { return mkInt(12345), true }
	t["internal/bytealg.MakeNoZero"] = func(m *M, fr *frame, a []value) (value, bool) {
		n := m.concInt(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = smallInts[256]
		}
		return s, true
	}
	t["internal/stringslite.Clone"] = func(m *M, fr *frame, a []value) (value, bool) { return a[0], true }
	t["strings.Clone"] = t["internal/stringslite.Clone"]
	t["internal/abi.NoEscape"] = t["internal/stringslite.Clone"]
	t["internal/abi.Escape"] = t["internal/stringslite.Clone"]

	// atomics
	at := func(f func(m *M, p *value, a []value) value) intrinsic {
		return func(m *M, fr *frame, a []value) (value, bool) {
			p := a[0].(*value)
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return f(m, p, a), true
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		ii := map[string]intInfo{"Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Uint64": {64, false}, "Uintptr": {64, false}}[ty]
		for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			t[pre+"Load"+ty] = at(func(m *M, p *value, a []value) value { return *p })
			t[pre+"Store"+ty] = at(func(m *M, p *value, a []value) value { m.set(p, a[1]); return nil })
			t[pre+"Swap"+ty] = at(func(m *M, p *value, a []value) value { o := *p; m.set(p, a[1]); return o })
			t[pre+"CompareAndSwap"+ty] = at(func(m *M, p *value, a []value) value {
				if m.branchV(m.equals(*p, a[1])) {
					m.set(p, a[2])
					return true
				}
				return false
			})
			t[pre+"Add"+ty] = at(func(m *M, p *value, a []value) value {
				v := mkInt(ii.norm((*p).(int64) + a[1].(int64)))
				m.set(p, v)
				return v
			})
			t[pre+"Or"+ty] = at(func(m *M, p *value, a []value) value {
				o := *p
				m.set(p, mkInt(ii.norm((*p).(int64)|a[1].(int64))))
				return o
			})
			t[pre+"And"+ty] = at(func(m *M, p *value, a []value) value {
				o := *p
				m.set(p, mkInt(ii.norm((*p).(int64)&a[1].(int64))))
				return o
			})
		}
	}
	t["(*sync/atomic.Value).Load"] = at(func(m *M, p *value, a []value) value { return (*p).(structure)[0] })
	t["(*sync/atomic.Value).Store"] = at(func(m *M, p *value, a []value) value { m.set(&(*p).(structure)[0], a[1]); return nil })
	// sync.Map: a map stored in the receiver's first field
	smap := func(m *M, p *value, create bool) *Map {
		f := &(*p).(structure)[0]
		if mp, ok := (*f).(*Map); ok {
			return mp
		}
		if !create {
			return nil
		}
		mp := newMap()
		m.set(f, mp)
		return mp
	}
	t["(*sync.Map).Load"] = at(func(m *M, p *value, a []value) value {
		v, ok := m.mapGet(smap(m, p, false), a[1])
		if !ok {
			return tuple{iface{}, false}
		}
		return tuple{v, true}
	})
	t["(*sync.Map).Store"] = at(func(m *M, p *value, a []value) value { m.mapSet(smap(m, p, true), a[1], a[2]); return nil })
	t["(*sync.Map).LoadOrStore"] = at(func(m *M, p *value, a []value) value {
		mp := smap(m, p, true)
		if v, ok := m.mapGet(mp, a[1]); ok {
			return tuple{v, true}
		}
		m.mapSet(mp, a[1], a[2])
		return tuple{a[2], false}
	})
	t["(*sync.Map).Delete"] = at(func(m *M, p *value, a []value) value {
		if mp := smap(m, p, false); mp != nil {
			m.mapDelete(mp, a[1])
		}
		return nil
	})
	t["(*sync.Map).Range"] = at(func(m *M, p *value, a []value) value {
		if mp := smap(m, p, false); mp != nil {
			for i := range mp.keys {
				if mp.live[i] && !m.branchV(m.callFunc(a[1], mp.keys[i], mp.vals[i])) {
					break
				}
			}
		}
		return nil
	})

	// bytealg -------------------------------------------------------------------------------------------------------
	idxByte := func(m *M, b []value, c value) value {
		for i, x := range b {
			if m.branchT(m.byteEq(x, c)) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	t["internal/bytealg.IndexByteString"] = func(m *M, fr *frame, a []value) (value, bool) {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return mkInt(int64(strings.IndexByte(s, byte(c)))), true
			}
		}
		return idxByte(m, strBytes(a[0]), a[1]), true
	}
	t["internal/bytealg.IndexByte"] = func(m *M, fr *frame, a []value) (value, bool) {
		return idxByte(m, a[0].([]value), a[1]), true
	}
	count := func(m *M, b []value, c value) value {
		n := 0
		for _, x := range b {
			if m.branchT(m.byteEq(x, c)) {
				n++
			}
		}
		return mkInt(int64(n))
	}
	t["internal/bytealg.CountString"] = func(m *M, fr *frame, a []value) (value, bool) {
		return count(m, strBytes(a[0]), a[1]), true
	}
	t["internal/bytealg.Count"] = func(m *M, fr *frame, a []value) (value, bool) {
		return count(m, a[0].([]value), a[1]), true
	}
	idx := func(m *M, s, sub value) value {
		n, k := strLen(s), strLen(sub)
		for i := 0; i+k <= n; i++ {
			if m.branchV(m.strEq(strSlice(s, i, i+k), sub)) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	t["internal/bytealg.IndexString"] = func(m *M, fr *frame, a []value) (value, bool) { return idx(m, a[0], a[1]), true }
	t["internal/bytealg.Index"] = func(m *M, fr *frame, a []value) (value, bool) {
		return idx(m, mkStr(a[0].([]value)), mkStr(a[1].([]value))), true
	}
	t["strings.Index"] = func(m *M, fr *frame, a []value) (value, bool) {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(string); ok {
				return mkInt(int64(strings.Index(s, c))), true
			}
		}
		return idx(m, a[0], a[1]), true
	}
	t["internal/stringslite.Index"] = t["strings.Index"]
	t["bytes.Index"] = t["internal/bytealg.Index"]
	t["bytes.Equal"] = func(m *M, fr *frame, a []value) (value, bool) {
		return m.strEq(mkStr(a[0].([]value)), mkStr(a[1].([]value))), true
	}
	t["internal/bytealg.Equal"] = t["bytes.Equal"]
	cmp := func(m *M, a, b value) value {
		if m.branchV(m.strEq(a, b)) {
			return mkInt(0)
		}
		if m.branchV(m.strLess(a, b)) {
			return mkInt(-1)
		}
		return mkInt(1)
	}
	t["internal/bytealg.CompareString"] = func(m *M, fr *frame, a []value) (value, bool) { return cmp(m, a[0], a[1]), true }
	t["strings.Compare"] = t["internal/bytealg.CompareString"]
	t["internal/bytealg.Compare"] = func(m *M, fr *frame, a []value) (value, bool) {
		return cmp(m, mkStr(a[0].([]value)), mkStr(a[1].([]value))), true
	}
	t["runtime.cmpstring"] = t["internal/bytealg.CompareString"]

	// math ----------------------------------------------------------------------------------------------------------
	f1 := func(f func(float64) float64, sym func(m *M, x *Term) value) intrinsic {
		return func(m *M, fr *frame, a []value) (value, bool) {
			switch x := a[0].(type) {
			case float64:
				return f(x), true
			case *Term:
				if sym != nil {
					return sym(m, x), true
				}
			}
			return nil, false
		}
	}
	rnd := func(k uint64) func(m *M, x *Term) value {
		return func(m *M, x *Term) value { return fromFloat(m.ctx.Gen(OFRound, x.sort, k, x)) }
	}
	t["math.Trunc"] = f1(math.Trunc, rnd(0))
	t["math.Floor"] = f1(math.Floor, rnd(1))
	t["math.Ceil"] = f1(math.Ceil, rnd(2))
	t["math.Abs"] = f1(math.Abs, func(m *M, x *Term) value { return fromFloat(m.ctx.Gen(OFAbs, x.sort, 0, x)) })
	t["math.RoundToEven"] = f1(math.RoundToEven, rnd(3))
	t["math.Round"] = f1(math.Round, nil)
	t["math.Sqrt"] = f1(math.Sqrt, nil)
	t["math.Log2"] = f1(math.Log2, nil)
	t["math.Log10"] = f1(math.Log10, nil)
	t["math.Log"] = f1(math.Log, nil)
	t["math.Exp"] = f1(math.Exp, nil)
	t["math.Modf"] = func(m *M, fr *frame, a []value) (value, bool) {
		switch x := a[0].(type) {
		case float64:
			i, f := math.Modf(x)
			return tuple{i, f}, true
		case *Term:
			i := m.ctx.Gen(OFRound, x.sort, 0, x)
			return tuple{fromFloat(i), fromFloat(m.ctx.FBin(OFSub, x, i))}, true
		}
		return nil, false
	}
	// files with additional plural forms, from the working directory, are taken to be absent
	t["github.com/gobuffalo/flect.loadCustomData"] = func(m *M, fr *frame, a []value) (value, bool) { return nil, true }
	t["k8s.io/apimachinery/pkg/util/naming.GetNameFromCallsite"] = func(m *M, fr *frame, a []value) (value, bool) { return "callsite", true }
	t[symPkg+"Unsupported"] = func(m *M, fr *frame, a []value) (value, bool) {
		panic(pathAbort{"unsupported", m.debugStr(a[0])})
	}
	t["math.Float64bits"] = func(m *M, fr *frame, a []value) (value, bool) {
		switch x := a[0].(type) {
		case float64:
			return mkInt(int64(math.Float64bits(x))), true
		case *Term:
			if x.op == OBitsToF {
				return x.args[0], true
			}
		}
		panic(pathAbort{"unsupported", "Float64bits of a symbolic float"})
	}
	t["math.Float64frombits"] = func(m *M, fr *frame, a []value) (value, bool) {
		switch x := a[0].(type) {
		case int64:
			return math.Float64frombits(uint64(x)), true
		case *Term:
			return m.ctx.Gen(OBitsToF, SF64, 0, x), true
		}
		return nil, false
	}
	t["math.Float32bits"] = func(m *M, fr *frame, a []value) (value, bool) {
		if x, ok := a[0].(float64); ok {
			return mkInt(int64(math.Float32bits(float32(x)))), true
		}
		panic(pathAbort{"unsupported", "Float32bits of a symbolic float"})
	}
	t["math.Float32frombits"] = func(m *M, fr *frame, a []value) (value, bool) {
		if x, ok := a[0].(int64); ok {
			return float64(math.Float32frombits(uint32(x))), true
		}
		panic(pathAbort{"unsupported", "Float32frombits of a symbolic value"})
	}

	// native fast paths for concrete arguments ------------------------------------------------------------------------
	for name, f := range map[string]any{
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Join": strings.Join,
		"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
		"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
		"strings.LastIndex": strings.LastIndex, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Count": strings.Count,
		"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.Repeat": strings.Repeat,
		"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
		"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
		"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
		"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatUint": strconv.FormatUint,
		"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower,
		"unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint, "unicode.IsPunct": unicode.IsPunct,
		"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
		"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
		"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidRune": utf8.ValidRune,
		"path/filepath.Clean": filepath.Clean, "path/filepath.Join": nil, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf,
		"math.Mod": math.Mod, "math.Pow": math.Pow,
	} {
		if f != nil {
			t[name] = nativeFast(f)
		}
	}
	t["strconv.ParseFloat"] = func(m *M, fr *frame, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		f, err := strconv.ParseFloat(s, int(a[1].(int64)))
		if err != nil {
			return nil, false // let the interpreted version build the error
		}
		return tuple{f, iface{}}, true
	}
	t["math.IsNaN"] = func(m *M, fr *frame, a []value) (value, bool) {
		switch x := a[0].(type) {
		case float64:
			return math.IsNaN(x), true
		case *Term:
			return fromBool(m.ctx.Gen(OFIsNaN, SBool, 0, x)), true
		}
		return nil, false
	}
	addReflect(t)
	addFmt(t)
	addJSON(t)
	return t
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case nil:
		return true
	default:
		return f == value(nilFunc)
	}
}

func alphaTerm(c *Ctx, v *Term, alpha string) *Term {
	bs := []byte(alpha)
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	var ors []*Term
	for i := 0; i < len(bs); {
		j := i
		for j+1 < len(bs) && bs[j+1] <= bs[j]+1 {
			j++
		}
		if bs[i] == bs[j] {
			ors = append(ors, c.Eq(v, c.BV(uint64(bs[i]), 8)))
		} else {
			ors = append(ors, c.And(c.cmp(OUle, c.BV(uint64(bs[i]), 8), v), c.cmp(OUle, v, c.BV(uint64(bs[j]), 8))))
		}
		i = j + 1
	}
	return c.Or(ors...)
}

func (m *M) newVar(name string, s Sort) *Term {
	k := m.varCount[name]
	m.varCount[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	if !m.symbolic {
		panic(engineErr("symbolic value " + name + " requested outside the symbolic phase"))
	}
	if m.sub != nil {
		panic(engineErr("symbolic value " + name + " created inside a merged call"))
	}
	v := m.ctx.Var(name, s)
	m.choices = append(m.choices, choiceRec{name, "var", 0})
	return v
}

func (m *M) recChoice(name string, v uint64) {
	k := m.varCount["!"+name]
	m.varCount["!"+name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	m.choices = append(m.choices, choiceRec{name, "choose", v})
}

// nativeFast calls the real function when all arguments are concrete.
func nativeFast(f any) intrinsic {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(m *M, fr *frame, a []value) (value, bool) {
		in := make([]reflect.Value, ft.NumIn())
		for i := range in {
			v, ok := toNative(a[i], ft.In(i))
			if !ok {
				return nil, false
			}
			in[i] = v
		}
		if fr == nil && false {
			return nil, false
		}
		out := fv.Call(in)
		if len(out) == 1 {
			return fromNative(out[0]), true
		}
		tp := make(tuple, len(out))
		for i, o := range out {
			tp[i] = fromNative(o)
		}
		return tp, true
	}
}

func toNative(v value, t reflect.Type) (reflect.Value, bool) {
	switch x := v.(type) {
	case string:
		if t.Kind() == reflect.String {
			return reflect.ValueOf(x).Convert(t), true
		}
	case int64:
		r := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r.SetInt(x)
			return r, true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r.SetUint(uint64(x))
			return r, true
		}
	case bool:
		return reflect.ValueOf(x), true
	case float64:
		if t.Kind() == reflect.Float64 {
			return reflect.ValueOf(x), true
		}
	case []value:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.String {
			out := make([]string, len(x))
			for i, e := range x {
				s, ok := e.(string)
				if !ok {
					return reflect.Value{}, false
				}
				out[i] = s
			}
			return reflect.ValueOf(out), true
		}
	}
	return reflect.Value{}, false
}

func fromNative(v reflect.Value) value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mkInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return mkInt(int64(v.Uint()))
	case reflect.Float64, reflect.Float32:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return []value(nil)
		}
		out := make([]value, v.Len())
		for i := range out {
			out[i] = fromNative(v.Index(i))
		}
		return out
	}
	panic(engineErr("fromNative " + v.Kind().String()))
}
