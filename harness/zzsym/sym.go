// Package zzsym is the harness API. The symbolic executor intercepts every
// function here; the bodies below are the native versions, which take the
// inputs of one solver model and are used to replay it against the real build.
package zzsym

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
)

var (
	in       map[string]int64
	names    map[string]int
	obs      []string
	thorough bool
	frozen   []frozenRec
)

type frozenRec struct {
	v  any
	fp string
}

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Pruned is the panic value of an unmet assumption.
type Pruned struct{ Msg string }

// Begin starts a native run.
func Begin(inputs map[string]int64, th bool) {
	in, names, obs, thorough, frozen = inputs, map[string]int{}, nil, th, nil
	pending, held = nil, 0
}

// Observations returns what the run observed.
func Observations() []string { return obs }

func vname(s string) string {
	n := names[s]
	names[s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

// IntRange is an arbitrary integer in [lo, hi].
func IntRange(name string, lo, hi int) int {
	if lo > hi {
		panic(Pruned{"empty range"})
	}
	v, ok := in[vname(name)]
	if !ok {
		return lo
	}
	if int(v) < lo || int(v) > hi {
		panic(Pruned{"range"})
	}
	return int(v)
}

// Int is an arbitrary integer.
func Int(name string) int { return int(in[vname(name)]) }

// Choice is an integer in [0, n), explored one value at a time.
func Choice(name string, n int) int { return IntRange(name, 0, n-1) }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(in[vname(name)]) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return in[vname(name)] != 0 }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	nm := vname(name)
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(in[fmt.Sprintf("%s[%d]", nm, i)])
	}
	return r
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// StringOf is a string of n arbitrary bytes of the alphabet.
func StringOf(name string, n int, alphabet string) string {
	b := Bytes(name, n)
	for i := range b {
		if strings.IndexByte(alphabet, b[i]) < 0 {
			if b[i] == 0 {
				b[i] = alphabet[0]
			} else {
				panic(Pruned{"alphabet"})
			}
		}
	}
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Pruned{"assumption"})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(Failure{msg}) }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// Ite selects without branching.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concrete explores the values of v one at a time.
func Concrete(v int) int { return v }

// Observe records a value compared between symbolic and native runs.
func Observe(name string, v any) {
	switch x := v.(type) {
	case string:
		obs = append(obs, fmt.Sprintf("%s=%q", name, x))
	default:
		obs = append(obs, fmt.Sprintf("%s=%v", name, v))
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) {}

// Thorough tells the tier.
func Thorough() bool { return thorough }

// N is a bound: q in the quick tier, t in the thorough one.
func N(q, t int) int {
	if thorough {
		return t
	}
	return q
}

// Symbolic is true in the symbolic executor only.
func Symbolic() bool { return false }

// Debug prints in the symbolic executor.
func Debug(label string, v any) {}

// Freeze forbids any change of memory reachable from v.
func Freeze(v any) {
	frozen = append(frozen, frozenRec{v, fingerprint(v)})
}

// CheckFrozen compares frozen memory with its state at Freeze.
func CheckFrozen() {
	for _, f := range frozen {
		if fingerprint(f.v) != f.fp {
			panic(Failure{"shared state modified"})
		}
	}
}

// Parallel runs functions side by side; they must not share memory of the
// harness nor take inputs. Package variables of the code under test may not be
// written meanwhile. (Native replays run them one after another, or in threads
// under the race detector.)
func Parallel(fs ...func()) {
	if os.Getenv("ZZRACE") == "" {
		for _, f := range fs {
			f()
		}
		return
	}
	start := make(chan struct{})
	done := make(chan any)
	for _, f := range fs {
		go func() {
			defer func() { done <- recover() }()
			<-start
			f()
		}()
	}
	close(start)
	for range fs {
		if p := <-done; p != nil {
			defer panic(p)
		}
	}
}

// pending are the functions of Schedule that have not been started.
var (
	pending []func()
	held    int
)

// Share marks memory that functions of Schedule share: it may be written, but
// not by one of them while another one uses it. (Replays are by the race
// detector.)
func Share(v any) {}

// Schedule runs functions side by side: any of them is first, and at points
// where a running one is about to take a lock any other may run. It is native
// threads under the race detector.
func Schedule(fs ...func()) {
	if os.Getenv("ZZRACE") != "" {
		Parallel(fs...)
		return
	}
	pending = append([]func(){}, fs...)
	for len(pending) > 0 {
		start(IntRange("zzstart", 0, len(pending)-1))
	}
}

func start(i int) {
	f := pending[i]
	pending = append(append([]func(){}, pending[:i]...), pending[i+1:]...)
	f()
}

// SchedPoint is where another function of Schedule may run.
func SchedPoint() {
	if os.Getenv("ZZRACE") != "" {
		return
	}
	for held == 0 && len(pending) > 0 {
		k := IntRange("zzsched", 0, len(pending))
		if k == 0 {
			return
		}
		start(k - 1)
	}
}

// Held counts locks.
func Held(d int) {
	if os.Getenv("ZZRACE") == "" {
		held += d
	}
}

func fingerprint(v any) string {
	var sb strings.Builder
	seen := map[uintptr]bool{}
	walk(&sb, reflect.ValueOf(v), seen, 0)
	return sb.String()
}

func walk(sb *strings.Builder, v reflect.Value, seen map[uintptr]bool, d int) {
	if !v.IsValid() {
		sb.WriteString("<nil>")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "@%x", v.Pointer())
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if strings.HasPrefix(v.Type().String(), "*regexp.") {
			return
		}
		walk(sb, v.Elem(), seen, d+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(v.Elem().Type().String())
		walk(sb, v.Elem(), seen, d+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			walk(sb, v.Field(i), seen, d+1)
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(sb, v.Index(i), seen, d+1)
			sb.WriteByte(',')
		}
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "[%x:%d:%d:", v.Pointer(), v.Len(), v.Cap())
		full := v
		if v.Cap() > v.Len() && v.CanInterface() {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			walk(sb, full.Index(i), seen, d+1)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			walk(&kb, k, seen, d+1)
			kb.WriteByte(':')
			walk(&kb, v.MapIndex(k), seen, d+1)
			es = append(es, kb.String())
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, ","))
	case reflect.Func:
		if v.IsNil() {
			sb.WriteString("nil")
		} else {
			fmt.Fprintf(sb, "f%x", v.Pointer())
		}
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	}
}
