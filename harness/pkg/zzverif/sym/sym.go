// Package sym is the vocabulary of the verification harnesses. The symbolic engine replaces the bodies of these functions; compiled
// natively they read the values of a counterexample (or of a sampled path) so that the same harness replays it against the real code.
package sym

import (
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
)

type AssertFail struct{ Msg string }
type AssumeFail struct{}

var (
	Values map[string]uint64
	TierV  int
	count  map[string]int
	obs    []string
)

func key(name string) string {
	k := count[name]
	count[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func choice(name string) uint64 {
	k := count["!"+name]
	count["!"+name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return Values[name]
}

// Nondeterministic values.
func Bool(name string) bool     { return Values[key(name)] != 0 }
func Byte(name string) byte     { return byte(Values[key(name)]) }
func Int64(name string) int64   { return int64(Values[key(name)]) }
func Int32(name string) int32   { return int32(Values[key(name)]) }
func Uint16(name string) uint16 { return uint16(Values[key(name)]) }
func Uint64(name string) uint64 { return Values[key(name)] }
func Int(name string) int       { return int(Values[key(name)]) }
func Rune(name string) rune     { return rune(Values[key(name)]) }
func IntIn(name string, lo, hi int) int {
	v := int(Values[key(name)])
	Assume(lo <= v && v <= hi)
	return v
}
func Float64(name string) float64 { return math.Float64frombits(Values[key(name)]) }

// Choose returns a value in [0,n), one execution path per value.
func Choose(name string, n int) int {
	if n <= 0 {
		return 0
	}
	v := int(choice(name))
	if v >= n {
		v = 0
	}
	return v
}

// String returns an arbitrary byte string of length at most max.
func String(name string, max int) string { return str(name, 0, max) }

// StringOf returns an arbitrary string over the alphabet, of a length in [min,max].
func StringOf(name string, min, max int, alphabet string) string {
	s := str(name, min, max)
	for i := 0; i < len(s); i++ {
		Assume(strings.IndexByte(alphabet, s[i]) >= 0)
	}
	return s
}

func str(name string, lo, hi int) string {
	n := lo
	if hi > lo {
		n = int(choice(name + ".len"))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Values[key(fmt.Sprintf("%s[%d]", name, i))])
	}
	return string(b)
}

// Assume restricts the values considered from here on.
func Assume(c bool) {
	if !c {
		panic(AssumeFail{})
	}
}

// Assert states a property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFail{msg})
	}
}

// Reach marks a place that some execution must get to (a vacuity witness).
func Reach(label string) {}

// Observe records an output; sampled paths are replayed natively and must produce the same outputs.
func Observe(label, v string) { obs = append(obs, label+"="+v) }

// PermuteMaps makes the iteration order of maps of up to n entries, in the repository's code, a free choice.
func PermuteMaps(n int) {}

// MapOrder selects one iteration order for all the maps in the repository's code: 0 insertion, 1 reverse, k>1 the k-th shuffle.
func MapOrder(k int) {}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return TierV }

// Symbolic tells whether the engine is running the harness.
func Symbolic() bool { return false }

// Merge evaluates a predicate as one formula instead of forking inside it.
func Merge(f func() bool) bool { return f() }

func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool     { return !a || b }
func Iff(a, b bool) bool         { return a == b }
func StrEq(a, b string) bool     { return a == b }
func Debug(a ...any)             {}
func DeepEqual(a, b any) bool    { return reflect.DeepEqual(a, b) }
func Concretize(s string) string { return s }

// Result is the outcome of one native run.
type Result struct {
	Kind string   `json:"kind"` // ok, assert, panic, assume, timeout
	Msg  string   `json:"msg"`
	Obs  []string `json:"obs"`
}

// Run executes a harness natively on the given values.
func Run(f func(), vals map[string]uint64, tier int, limit time.Duration) Result {
	ch := make(chan Result, 1)
	Values, TierV, count, obs = vals, tier, map[string]int{}, nil
	go func() {
		var r Result
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case AssertFail:
					r = Result{Kind: "assert", Msg: e.Msg}
				case AssumeFail:
					r = Result{Kind: "assume"}
				default:
					r = Result{Kind: "panic", Msg: fmt.Sprint(x) + "\n" + string(debug.Stack())}
				}
			}
			r.Obs = obs
			ch <- r
		}()
		f()
		r.Kind = "ok"
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit):
		return Result{Kind: "timeout"}
	}
}
