// Package sym is the harnesses' interface to the checker.
//
// Under symbolic execution the checker replaces every exported function here by an intrinsic: inputs
// become solver variables and Assert becomes a query. The bodies below are the native meaning of the same
// functions, used to replay a counterexample (or a sampled path) against the real compiled code: inputs are
// read back from the recorded assignment, in order.
package sym

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Input is one recorded choice.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

// Outcome is what a native run did.
type Outcome struct {
	Violations []string    `json:"violations"`
	Obs        [][2]string `json:"obs"`
	Assume     bool        `json:"assume"`
	Panic      string      `json:"panic"`
	Mismatch   string      `json:"mismatch"`
	Timeout    bool        `json:"timeout"`
	Missing    bool        `json:"missing"` // ran past the recorded inputs (a path the encoding left early)
	Race       bool        `json:"race"`
}

var (
	st struct {
		inputs  []Input
		pos     int
		out     *Outcome
		tier    string
		freezes []snapshot
	}
)

// Start prepares a native run.
func Start(inputs []Input, tier string) *Outcome {
	st.inputs, st.pos, st.tier = inputs, 0, tier
	st.out = &Outcome{Violations: []string{}, Obs: [][2]string{}}
	st.freezes = nil
	return st.out
}

func next(name, kind string) uint64 {
	if st.pos >= len(st.inputs) {
		st.out.Missing = true
		return 0
	}
	in := st.inputs[st.pos]
	if in.Name != name || in.Kind != kind {
		st.out.Mismatch = fmt.Sprintf("input %d is %s/%s, the run asked for %s/%s", st.pos, in.Name, in.Kind, name, kind)
		runtime.Goexit()
	}
	st.pos++
	return in.Val
}

func Byte(name string) byte     { return byte(next(name, "byte")) }
func Int8(name string) int8     { return int8(next(name, "int8")) }
func Int16(name string) int16   { return int16(next(name, "int16")) }
func Int32(name string) int32   { return int32(next(name, "int32")) }
func Int64(name string) int64   { return int64(next(name, "int64")) }
func Int(name string) int       { return int(next(name, "int")) }
func Uint8(name string) uint8   { return uint8(next(name, "uint8")) }
func Uint16(name string) uint16 { return uint16(next(name, "uint16")) }
func Uint32(name string) uint32 { return uint32(next(name, "uint32")) }
func Uint64(name string) uint64 { return next(name, "uint64") }
func Uint(name string) uint     { return uint(next(name, "uint")) }
func Bool(name string) bool     { return next(name, "bool") == 1 }

// Str is a string of exactly n arbitrary bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name, "byte"))
	}
	return string(b)
}

// Text is a string of any length in [min,max] and any bytes. The lengths are told apart only where the code looks at
// the string.
func Text(name string, min, max int) string {
	b := make([]byte, int(next(name, "len")))
	for i := range b {
		b[i] = byte(next(name, "byte"))
	}
	return string(b)
}

// Float64 is an arbitrary number: the special values, values around every constant the code compares it with, and some
// values of each shape.
func Float64(name string) float64 { return math.Float64frombits(next(name, "float64")) }

// Float32 is Float64 for the smaller type.
func Float32(name string) float32 { return float32(math.Float64frombits(next(name, "float64"))) }

// SameFloat compares bit by bit.
func SameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// Clock is the time with the given representation, for times with a reading of the monotonic clock.
func Clock(wall uint64, ext int64, loc *time.Location) time.Time {
	rep := struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}{wall, ext, loc}
	return *(*time.Time)(unsafe.Pointer(&rep))
}

// Choose is an arbitrary number in [0,n); every value is explored on its own path.
func Choose(name string, n int) int { return int(next(name, "choose")) }

// MapOrder picks the iteration orders explored: 0 all of them, 1 insertion order, 2 its reverse.
func MapOrder(mode int) {}

// Concretize splits the path over the values of x.
func Concretize(x int) int { return x }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		st.out.Assume = true
		runtime.Goexit()
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		st.out.Violations = append(st.out.Violations, label)
		runtime.Goexit()
	}
}

// Cover records that a point is reachable.
func Cover(name string) {}

// Observe records a value the encoding predicts and the native run confirms.
func Observe(label, s string) {
	st.out.Obs = append(st.out.Obs, [2]string{label, strings.Trim(strconv.QuoteToASCII(s), `"`)})
}

// Bound picks a bound by tier.
func Bound(quick, thorough int) int {
	if st.tier == "thorough" {
		return thorough
	}
	return quick
}

// Freeze remembers everything reachable from vs.
func Freeze(vs ...any) int { return freeze(vs) }

// FreezeAll is Freeze, and from there on every unsynchronised write to package-level state counts too.
func FreezeAll(vs ...any) int {
	g := freeze(vs)
	watch(g)
	return g
}

// watch is natively left to the race detector.
func watch(g int) {}

// Touched reports a write to anything remembered by Freeze.
func Touched(g int) bool { return touched(g) }

// Parallel runs f; natively, several times at once, so that the race detector can see unsynchronised writes.
func Parallel(f func()) { parallel(f) }

func parallel(f func()) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); defer func() { _ = recover() }(); f() }()
	}
	wg.Wait()
}

type snapshot struct {
	vs   []any
	snap []any
}

func freeze(vs []any) int {
	s := snapshot{vs: vs}
	for _, v := range vs {
		s.snap = append(s.snap, deep(reflect.ValueOf(v), map[uintptr]bool{}))
	}
	st.freezes = append(st.freezes, s)
	return len(st.freezes)
}

func touched(g int) bool {
	s := st.freezes[g-1]
	for i, v := range s.vs {
		if !reflect.DeepEqual(s.snap[i], deep(reflect.ValueOf(v), map[uintptr]bool{})) {
			return true
		}
	}
	return false
}

// deep renders v, through pointers and unexported fields, as a comparable tree.
func deep(v reflect.Value, seen map[uintptr]bool) any {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if seen[v.Pointer()] {
			return "cycle"
		}
		seen[v.Pointer()] = true
		return []any{v.Type().String(), v.Pointer(), deep(v.Elem(), seen)}
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return deep(v.Elem(), seen)
	case reflect.Struct:
		out := []any{v.Type().String()}
		for i := 0; i < v.NumField(); i++ {
			out = append(out, deep(v.Field(i), seen))
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		out := []any{v.Type().String(), v.Pointer(), v.Len(), v.Cap()}
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			out = append(out, deep(w.Index(i), seen))
		}
		return out
	case reflect.Array:
		out := []any{v.Type().String()}
		for i := 0; i < v.Len(); i++ {
			out = append(out, deep(v.Index(i), seen))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		out := map[string]any{}
		it := v.MapRange()
		for it.Next() {
			out[fmt.Sprint(deep(it.Key(), seen))] = deep(it.Value(), seen)
		}
		return []any{v.Type().String(), out}
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.Pointer()
	}
	return fmt.Sprint(v)
}
