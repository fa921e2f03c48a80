package main

// Models of functions that are not interpreted from source: assembly, runtime, reflection, formatting, synchronisation,
// and the sym package through which harnesses obtain symbolic inputs and state properties.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn = func(in *Interp, fr *Frame, args []Value) Value

// packages whose variables are never initialised by interpretation (runtime internals)
var noInit = map[string]bool{"runtime": true, "internal/runtime/sys": true, "syscall": true, "os": true, "internal/poll": true,
	"internal/cpu": true, "internal/godebug": true, "internal/testlog": true, "internal/syscall/unix": true}

const symPkg = "verifharness/sym"

func findModel(fn *ssa.Function) modelFn {
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	if m, ok := models[name]; ok {
		return m
	}
	if strings.HasPrefix(name, symPkg+".") {
		if m, ok := symModels[strings.TrimPrefix(name, symPkg+".")]; ok {
			return m
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") && fn.Signature.Recv() == nil {
		return atomicModel(strings.TrimPrefix(name, "sync/atomic."))
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		n := strings.TrimPrefix(name, "(reflect.Value).")
		return func(in *Interp, fr *Frame, a []Value) Value { return in.reflectValueMethod(fr, n, a) }
	}
	return nil
}

func bAt(s Value, i int) Value {
	return strByte(s, i)
}

func sliceAsStr(in *Interp, v Value) Value {
	switch s := v.(type) {
	case Slice:
		b := make([]Value, s.len)
		copy(b, in.sliceElems(s))
		return mkStr(b)
	}
	return v
}

func (in *Interp) byteEq(a, b Value) Value {
	return norm(in.tt.Eq(in.toTerm(a, 8), in.toTerm(b, 8)))
}

func (in *Interp) indexByte(s Value, c Value) int {
	n := strLen(s)
	if cs, ok := s.(string); ok {
		if cc, ok := c.(uint64); ok {
			return strings.IndexByte(cs, byte(cc))
		}
	}
	for i := 0; i < n; i++ {
		if in.branchV(in.byteEq(bAt(s, i), c)) {
			return i
		}
	}
	return -1
}

func (in *Interp) countByte(s Value, c Value) int {
	n := 0
	for i := 0; i < strLen(s); i++ {
		if in.branchV(in.byteEq(bAt(s, i), c)) {
			n++
		}
	}
	return n
}

func (in *Interp) indexStr(s, sub Value) int {
	n, m := strLen(s), strLen(sub)
	if m == 1 {
		return in.indexByte(s, bAt(sub, 0))
	}
	for i := 0; i+m <= n; i++ {
		if in.branchV(in.strEq(strSlice(s, i, i+m), sub)) {
			return i
		}
	}
	return -1
}

func (in *Interp) cmpStr(a, b Value) Value {
	if in.branchV(in.strEq(a, b)) {
		return uint64(0)
	}
	if in.branchV(in.strLess(a, b, false)) {
		return ^uint64(0)
	}
	return uint64(1)
}

func (in *Interp) withLock(f func() Value) Value {
	in.lockDepth++
	defer func() { in.lockDepth-- }()
	return f()
}

func si(i int) Value { return uint64(int64(i)) }

var models map[string]modelFn

func nop(in *Interp, fr *Frame, a []Value) Value { return nil }

func init() {
	models = map[string]modelFn{
		"internal/bytealg.IndexByte": func(in *Interp, fr *Frame, a []Value) Value {
			return si(in.indexByte(sliceAsStr(in, a[0]), a[1]))
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *Frame, a []Value) Value {
			return si(in.indexByte(a[0], a[1]))
		},
		"internal/bytealg.LastIndexByteString": func(in *Interp, fr *Frame, a []Value) Value {
			for i := strLen(a[0]) - 1; i >= 0; i-- {
				if in.branchV(in.byteEq(bAt(a[0], i), a[1])) {
					return si(i)
				}
			}
			return si(-1)
		},
		"internal/bytealg.Count": func(in *Interp, fr *Frame, a []Value) Value {
			return si(in.countByte(sliceAsStr(in, a[0]), a[1]))
		},
		"internal/bytealg.CountString": func(in *Interp, fr *Frame, a []Value) Value {
			return si(in.countByte(a[0], a[1]))
		},
		"internal/bytealg.Equal": func(in *Interp, fr *Frame, a []Value) Value {
			return in.strEq(sliceAsStr(in, a[0]), sliceAsStr(in, a[1]))
		},
		"bytes.Equal": func(in *Interp, fr *Frame, a []Value) Value {
			return in.strEq(sliceAsStr(in, a[0]), sliceAsStr(in, a[1]))
		},
		"internal/bytealg.Compare": func(in *Interp, fr *Frame, a []Value) Value {
			return in.cmpStr(sliceAsStr(in, a[0]), sliceAsStr(in, a[1]))
		},
		"internal/bytealg.CompareString": func(in *Interp, fr *Frame, a []Value) Value { return in.cmpStr(a[0], a[1]) },
		"internal/bytealg.Index": func(in *Interp, fr *Frame, a []Value) Value {
			return si(in.indexStr(sliceAsStr(in, a[0]), sliceAsStr(in, a[1])))
		},
		"internal/bytealg.IndexString": func(in *Interp, fr *Frame, a []Value) Value { return si(in.indexStr(a[0], a[1])) },
		"internal/bytealg.MakeNoZero": func(in *Interp, fr *Frame, a []Value) Value {
			n := int(in.intArg(a[0], 64, true))
			if n < 0 {
				panic(in.rtPanic("makeslice: len out of range"))
			}
			c := roundup(n)
			s := in.makeSlice(types.Typ[types.Uint8], n, c)
			return s
		},
		"internal/abi.NoEscape":      func(in *Interp, fr *Frame, a []Value) Value { return a[0] },
		"internal/abi.Escape":        func(in *Interp, fr *Frame, a []Value) Value { return a[0] },
		"internal/stringslite.Clone": func(in *Interp, fr *Frame, a []Value) Value { return a[0] },
		"strings.Clone":              func(in *Interp, fr *Frame, a []Value) Value { return a[0] },
		"strings.ToUpper":            func(in *Interp, fr *Frame, a []Value) Value { return in.caseMap(a[0], 'a', 'z') },
		"strings.ToLower":            func(in *Interp, fr *Frame, a []Value) Value { return in.caseMap(a[0], 'A', 'Z') },
		"runtime.KeepAlive":          nop,
		"runtime.SetFinalizer":       nop,
		"runtime.GC":                 nop,
		"runtime.Gosched":            nop,
		"runtime.Callers":            func(in *Interp, fr *Frame, a []Value) Value { return uint64(0) },
		"runtime.Caller":             func(in *Interp, fr *Frame, a []Value) Value { return Tuple{uint64(0), "", uint64(0), false} },
		"runtime.GOMAXPROCS":         func(in *Interp, fr *Frame, a []Value) Value { return uint64(1) },
		"internal/race.Enable":       nop,
		"internal/race.Disable":      nop,
		"internal/race.Acquire":      nop,
		"internal/race.Release":      nop,
		"internal/race.ReleaseMerge": nop,
		"slices.overlaps":            func(in *Interp, fr *Frame, a []Value) Value { return overlaps(a[0].(Slice), a[1].(Slice)) },
		"slices.startIdx":            modelStartIdx,
		"maps.clone":                 modelMapsClone,
		"math.Float64bits":           func(in *Interp, fr *Frame, a []Value) Value { return math.Float64bits(a[0].(float64)) },
		"math.Float64frombits":       func(in *Interp, fr *Frame, a []Value) Value { return math.Float64frombits(conc(a[0])) },
		"math.Float32bits":           func(in *Interp, fr *Frame, a []Value) Value { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits":       func(in *Interp, fr *Frame, a []Value) Value { return float64(math.Float32frombits(uint32(conc(a[0])))) },
		"math.Abs":                   func(in *Interp, fr *Frame, a []Value) Value { return math.Abs(a[0].(float64)) },
		"math.Floor":                 func(in *Interp, fr *Frame, a []Value) Value { return math.Floor(a[0].(float64)) },
		"math.Trunc":                 func(in *Interp, fr *Frame, a []Value) Value { return math.Trunc(a[0].(float64)) },
		"math.IsNaN":                 func(in *Interp, fr *Frame, a []Value) Value { return math.IsNaN(a[0].(float64)) },
		"unique.runtime_blockUntilEmptyFinalizerQueue": nop,

		// strconv on symbolic integers: decimal digits become variables tied to the value
		"strconv.FormatInt": func(in *Interp, fr *Frame, a []Value) Value {
			return in.formatInt(a[0], 64, true, a[1])
		},
		"strconv.FormatUint": func(in *Interp, fr *Frame, a []Value) Value {
			return in.formatInt(a[0], 64, false, a[1])
		},
		"strconv.Itoa": func(in *Interp, fr *Frame, a []Value) Value { return in.formatInt(a[0], 64, true, uint64(10)) },
		"strconv.AppendInt": func(in *Interp, fr *Frame, a []Value) Value {
			s := in.formatInt(a[1], 64, true, a[2])
			return in.appendVals(a[0].(Slice), strBytes(s), strLen(s), types.Typ[types.Uint8])
		},
		"strconv.AppendUint": func(in *Interp, fr *Frame, a []Value) Value {
			s := in.formatInt(a[1], 64, false, a[2])
			return in.appendVals(a[0].(Slice), strBytes(s), strLen(s), types.Typ[types.Uint8])
		},
		"strconv.FormatFloat": func(in *Interp, fr *Frame, a []Value) Value {
			return strconv.FormatFloat(a[0].(float64), byte(conc(a[1])), int(int64(conc(a[2]))), int(int64(conc(a[3]))))
		},
		"strconv.AppendFloat": func(in *Interp, fr *Frame, a []Value) Value {
			s := strconv.FormatFloat(a[1].(float64), byte(conc(a[2])), int(int64(conc(a[3]))), int(int64(conc(a[4]))))
			return in.appendVals(a[0].(Slice), strBytes(s), len(s), types.Typ[types.Uint8])
		},
		"encoding/hex.EncodeToString": modelHex,

		"sort.Slice":       modelSortSlice,
		"sort.SliceStable": modelSortSliceStable,

		"errors.Is": modelErrorsIs,
		"errors.As": modelErrorsAs,

		"(*sync.Mutex).Lock":      func(in *Interp, fr *Frame, a []Value) Value { in.lock(a[0]); return nil },
		"(*sync.Mutex).TryLock":   func(in *Interp, fr *Frame, a []Value) Value { in.lock(a[0]); return true },
		"(*sync.Mutex).Unlock":    func(in *Interp, fr *Frame, a []Value) Value { in.unlock(a[0]); return nil },
		"(*sync.RWMutex).Lock":    func(in *Interp, fr *Frame, a []Value) Value { in.lock(a[0]); return nil },
		"(*sync.RWMutex).Unlock":  func(in *Interp, fr *Frame, a []Value) Value { in.unlock(a[0]); return nil },
		"(*sync.RWMutex).RLock":   func(in *Interp, fr *Frame, a []Value) Value { in.nilCheck(a[0]); return nil },
		"(*sync.RWMutex).RUnlock": func(in *Interp, fr *Frame, a []Value) Value { in.nilCheck(a[0]); return nil },
		"(*sync.Once).Do": func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			if p.obj == nil {
				panic(in.nilDeref())
			}
			return in.withLock(func() Value {
				if in.side(p, "once") == nil {
					in.setSide(p, "once", true)
					in.callValue(fr, a[1], nil)
				}
				return nil
			})
		},
		"(*sync.Pool).Get": func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			if v, ok := in.side(p, "pool").([]Value); ok && len(v) > 0 {
				x := v[len(v)-1]
				in.setSide(p, "pool", append([]Value{}, v[:len(v)-1]...))
				return x
			}
			pt := in.poolNew(p)
			if c, ok := pt.(*Closure); ok && c != nil {
				return in.callValue(fr, c, nil)
			}
			return Iface{}
		},
		"(*sync.Pool).Put": func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			if i := a[1].(Iface); i.t == nil {
				return nil
			}
			v, _ := in.side(p, "pool").([]Value)
			in.setSide(p, "pool", append(append([]Value{}, v...), a[1]))
			return nil
		},
		"(*sync.Map).Load": func(in *Interp, fr *Frame, a []Value) Value {
			if e := in.mapFind(in.syncMap(a[0]), a[1]); e != nil {
				return Tuple{e.v, true}
			}
			return Tuple{Iface{}, false}
		},
		"(*sync.Map).Store": func(in *Interp, fr *Frame, a []Value) Value {
			return in.withLock(func() Value { in.mapSet(in.syncMap(a[0]), a[1], a[2]); return nil })
		},
		"(*sync.Map).LoadOrStore": func(in *Interp, fr *Frame, a []Value) Value {
			m := in.syncMap(a[0])
			if e := in.mapFind(m, a[1]); e != nil {
				return Tuple{e.v, true}
			}
			return in.withLock(func() Value { in.mapSet(m, a[1], a[2]); return Tuple{a[2], false} })
		},
		"(*sync.Map).Delete": func(in *Interp, fr *Frame, a []Value) Value {
			return in.withLock(func() Value { in.mapDelete(in.syncMap(a[0]), a[1]); return nil })
		},

		"fmt.Sprintf": func(in *Interp, fr *Frame, a []Value) Value { return in.sprintf(fr, a[0], in.anyArgs(a[1])) },
		"fmt.Sprint":  func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(fr, in.anyArgs(a[0]), false) },
		"fmt.Sprintln": func(in *Interp, fr *Frame, a []Value) Value {
			return in.sprint(fr, in.anyArgs(a[0]), true)
		},
		"fmt.Errorf": modelErrorf,
		"fmt.Fprintf": func(in *Interp, fr *Frame, a []Value) Value {
			return in.fprint(fr, a[0], in.sprintf(fr, a[1], in.anyArgs(a[2])))
		},
		"fmt.Fprint": func(in *Interp, fr *Frame, a []Value) Value {
			return in.fprint(fr, a[0], in.sprint(fr, in.anyArgs(a[1]), false))
		},
		"fmt.Fprintln": func(in *Interp, fr *Frame, a []Value) Value {
			return in.fprint(fr, a[0], in.sprint(fr, in.anyArgs(a[1]), true))
		},
		"fmt.Appendf": func(in *Interp, fr *Frame, a []Value) Value {
			s := in.sprintf(fr, a[1], in.anyArgs(a[2]))
			return in.appendVals(a[0].(Slice), strBytes(s), strLen(s), types.Typ[types.Uint8])
		},
		"fmt.Append": func(in *Interp, fr *Frame, a []Value) Value {
			s := in.sprint(fr, in.anyArgs(a[1]), false)
			return in.appendVals(a[0].(Slice), strBytes(s), strLen(s), types.Typ[types.Uint8])
		},
		"fmt.Println": nop3, "fmt.Printf": nop3, "fmt.Print": nop3,

		"reflect.ValueOf": func(in *Interp, fr *Frame, a []Value) Value {
			i := a[0].(Iface)
			return in.mkRV(i.t, i.v)
		},
		"reflect.TypeOf":                            func(in *Interp, fr *Frame, a []Value) Value { return in.rtype(a[0].(Iface).t) },
		"internal/reflectlite.TypeOf":               func(in *Interp, fr *Frame, a []Value) Value { return in.rtype(a[0].(Iface).t) },
		"reflect.DeepEqual":                         modelDeepEqual,
		"internal/reflectlite.ValueOf":              func(in *Interp, fr *Frame, a []Value) Value { i := a[0].(Iface); return in.mkRV(i.t, i.v) },
		"reflect.Indirect":                          func(in *Interp, fr *Frame, a []Value) Value { return in.reflectIndirect(fr, a) },
		"(reflect.Kind).String":                     func(in *Interp, fr *Frame, a []Value) Value { return kindNames[int(conc(a[0]))] },
		"internal/godebug.New":                      func(in *Interp, fr *Frame, a []Value) Value { return Ptr{in.newObj(4), 0} },
		"(*internal/godebug.Setting).Value":         func(in *Interp, fr *Frame, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
	}
}

func nop3(in *Interp, fr *Frame, a []Value) Value { return Tuple{uint64(0), Iface{}} }

func conc(v Value) uint64 {
	if u, ok := v.(uint64); ok {
		return u
	}
	panic(unsupported(fmt.Sprintf("symbolic argument %T to a native model", v)))
}

func overlaps(a, b Slice) Value {
	if a.obj == nil || a.obj != b.obj || a.len == 0 || b.len == 0 {
		return false
	}
	return a.off < b.off+b.len*b.es && b.off < a.off+a.len*a.es
}

func modelStartIdx(in *Interp, fr *Frame, a []Value) Value {
	h, n := a[0].(Slice), a[1].(Slice)
	if n.len == 0 {
		return uint64(0)
	}
	return si((n.off - h.off) / max(1, h.es))
}

func modelMapsClone(in *Interp, fr *Frame, a []Value) Value {
	i := a[0].(Iface)
	m := i.v.(*MapObj)
	if m == nil {
		return i
	}
	c := in.newMap(m.kt)
	for _, e := range m.ents {
		if !e.dead {
			in.mapSet(c, e.k, e.v)
		}
	}
	return Iface{i.t, c}
}

func modelHex(in *Interp, fr *Frame, a []Value) Value {
	s := sliceAsStr(in, a[0])
	if c, ok := s.(string); ok {
		return hex.EncodeToString([]byte(c))
	}
	var out []Value
	tt := in.tt
	nib := func(t *Term) Value {
		return norm(tt.Ite(tt.Cmp(OpUlt, t, tt.BV(10, 8)), tt.Bin(OpAdd, t, tt.BV('0', 8)), tt.Bin(OpAdd, t, tt.BV('a'-10, 8))))
	}
	for i := 0; i < strLen(s); i++ {
		b := in.toTerm(strByte(s, i), 8)
		out = append(out, nib(tt.Bin(OpLshr, b, tt.BV(4, 8))), nib(tt.Bin(OpBand, b, tt.BV(15, 8))))
	}
	return mkStr(out)
}

func (in *Interp) swapper(s Slice) *Closure {
	return &Closure{name: "swapper", native: func(in *Interp, a []Value) Value {
		i, j := int(conc(a[0])), int(conc(a[1]))
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			panic(in.rtPanic("reflect: slice index out of range"))
		}
		in.beforeWrite(s.obj)
		for k := 0; k < s.es; k++ {
			p, q := s.off+i*s.es+k, s.off+j*s.es+k
			s.obj.slots[p], s.obj.slots[q] = s.obj.slots[q], s.obj.slots[p]
		}
		return nil
	}}
}

func modelSortSlice(in *Interp, fr *Frame, a []Value) Value {
	s, ok := a[0].(Iface).v.(Slice)
	if !ok {
		panic(unsupported("sort.Slice of non-slice"))
	}
	ls := Agg{a[1], in.swapper(s)}
	limit := 0
	for n := uint(s.len); n > 0; n >>= 1 {
		limit++
	}
	in.callFn(fr, in.stdFunc("sort", "pdqsort_func"), []Value{ls, si(0), si(s.len), si(limit)}, nil)
	return nil
}

func modelSortSliceStable(in *Interp, fr *Frame, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	ls := Agg{a[1], in.swapper(s)}
	in.callFn(fr, in.stdFunc("sort", "stable_func"), []Value{ls, si(s.len)}, nil)
	return nil
}

func (in *Interp) nilCheck(v Value) {
	if p, ok := v.(Ptr); ok && p.obj == nil {
		panic(in.nilDeref())
	}
}
func (in *Interp) lock(v Value)   { in.nilCheck(v); in.lockDepth++ }
func (in *Interp) unlock(v Value) { in.nilCheck(v); in.lockDepth-- }

// side tables attach engine state (once flags, pool contents, sync.Map contents) to the first slot of an object.
type sideTab struct{ m map[string]any }

func (in *Interp) side(p Ptr, k string) any {
	if p.obj == nil {
		panic(in.nilDeref())
	}
	if o, ok := p.obj.slots[p.off].(Opaque); ok {
		if s, ok := o.x.(*sideTab); ok {
			return s.m[k]
		}
	}
	return nil
}

func (in *Interp) setSide(p Ptr, k string, v any) {
	n := &sideTab{m: map[string]any{}}
	if o, ok := p.obj.slots[p.off].(Opaque); ok {
		if s, ok := o.x.(*sideTab); ok {
			for a, b := range s.m {
				n.m[a] = b
			}
		}
	}
	n.m[k] = v
	in.lockDepth++
	in.beforeWrite(p.obj)
	in.lockDepth--
	p.obj.slots[p.off] = Opaque{n}
}

func (in *Interp) syncMap(v Value) *MapObj {
	p := v.(Ptr)
	if m, ok := in.side(p, "map").(*MapObj); ok {
		return m
	}
	m := in.newMap(types.NewInterfaceType(nil, nil))
	in.setSide(p, "map", m)
	return m
}

func (in *Interp) poolNew(p Ptr) Value {
	// New is the last field of sync.Pool
	for _, pk := range in.prog.ssa.AllPackages() {
		if pk.Pkg.Path() == "sync" {
			st := pk.Pkg.Scope().Lookup("Pool").Type().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					return p.obj.slots[p.off+in.fieldOff(st, i)]
				}
			}
		}
	}
	return nil
}

func atomicModel(name string) modelFn {
	return func(in *Interp, fr *Frame, a []Value) Value {
		in.lockDepth++
		defer func() { in.lockDepth-- }()
		p, ok := a[0].(Ptr)
		if !ok {
			panic(unsupported("atomic on " + name))
		}
		if p.obj == nil {
			panic(in.nilDeref())
		}
		old := p.obj.slots[p.off]
		switch {
		case strings.HasPrefix(name, "Load"):
			return old
		case strings.HasPrefix(name, "Store"):
			in.store(nil, p, a[1])
			return nil
		case strings.HasPrefix(name, "Swap"):
			in.store(nil, p, a[1])
			return old
		case strings.HasPrefix(name, "Add"):
			w := uint8(64)
			if strings.HasSuffix(name, "32") {
				w = 32
			}
			n := norm(in.tt.Bin(OpAdd, in.toTerm(old, w), in.toTerm(a[1], w)))
			in.store(nil, p, n)
			return n
		case strings.HasPrefix(name, "CompareAndSwap"):
			var eq Value
			if q, ok := old.(Ptr); ok {
				eq = q == a[1].(Ptr)
			} else {
				w := uint8(64)
				if strings.HasSuffix(name, "32") {
					w = 32
				}
				eq = norm(in.tt.Eq(in.toTerm(old, w), in.toTerm(a[1], w)))
			}
			if in.branchV(eq) {
				in.store(nil, p, a[2])
				return true
			}
			return false
		}
		panic(unsupported("sync/atomic." + name))
	}
}

// ---- integers to decimal -------------------------------------------------------

// formatInt renders v in the given base. For a symbolic v in base 10 it forks on sign and number of digits, and
// introduces the digits as variables tied to v by a Horner constraint, so the text is exact for every value.
func (in *Interp) formatInt(v Value, w uint8, signed bool, base Value) Value {
	b := conc(base)
	if u, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(sext64(u, w), int(b))
		}
		return strconv.FormatUint(u, int(b))
	}
	t := v.(*Term)
	if b != 10 {
		panic(unsupported("symbolic integer in base other than 10"))
	}
	if in.specStart != 0 {
		panic(specAbort{"format"})
	}
	tt := in.tt
	key := fmt.Sprintf("%d/%v", t.id, signed)
	if s, ok := in.digits[key]; ok {
		return s
	}
	// narrow values keep their width
	t64 := tt.Resize(t, 64, signed)
	neg := false
	mag := t64
	if signed {
		neg = in.branch(tt.Cmp(OpSlt, t64, tt.BV(0, 64)))
		if neg {
			mag = tt.Neg(t64)
		}
	}
	// number of digits
	var gs []*Term
	pow := uint64(10)
	lo := uint64(0)
	for k := 1; k <= 20; k++ {
		g := tt.Cmp(OpUle, tt.BV(lo, 64), mag)
		if k < 20 {
			g = tt.And(g, tt.Cmp(OpUlt, mag, tt.BV(pow, 64)))
		}
		gs = append(gs, g)
		lo = pow
		pow *= 10
	}
	k := in.fork(gs) + 1
	var out []Value
	if neg {
		out = append(out, uint64('-'))
	}
	acc := tt.BV(0, 64)
	for i := 0; i < k; i++ {
		d := in.newVar(fmt.Sprintf("digit_%x_%d", t.h1, i), "", 8)
		in.addDigit(d, i == 0 && k > 1, mag, k-1-i)
		acc = tt.Bin(OpAdd, tt.Bin(OpMul, acc, tt.BV(10, 64)), tt.Resize(d, 64, false))
		out = append(out, norm(tt.Bin(OpAdd, d, tt.BV('0', 8))))
	}
	in.addPC(tt.Eq(acc, mag))
	s := mkStr(out)
	if in.digits == nil {
		in.digits = map[string]Value{}
	}
	in.digits[key] = s
	return s
}

// addDigit constrains a digit variable and keeps the current model consistent with it.
func (in *Interp) addDigit(d *Term, leading bool, mag *Term, pos int) {
	tt := in.tt
	in.addPC(tt.Cmp(OpUle, d, tt.BV(9, 8)))
	if leading {
		in.addPC(tt.Not(tt.Eq(d, tt.BV(0, 8))))
	}
	if _, ok := in.p.startMod[d.name]; !ok || true {
		m := evalTerm(mag, in.p.model, map[*Term]uint64{})
		for i := 0; i < pos; i++ {
			m /= 10
		}
		// digits are functionally determined by the value: recompute them from the model in force
		mod := make(map[int32]uint64, len(in.p.model)+1)
		for k, v := range in.p.model {
			mod[k] = v
		}
		mod[d.vars[0]] = m % 10
		in.p.model = mod
	}
}

// ---- fmt ------------------------------------------------------------------------

func (in *Interp) anyArgs(v Value) []Iface {
	s := v.(Slice)
	out := make([]Iface, s.len)
	for i := range out {
		out[i] = s.obj.slots[s.off+i].(Iface)
	}
	return out
}

func (in *Interp) fprint(fr *Frame, w Value, s Value) Value {
	i := w.(Iface)
	if i.t == nil {
		panic(in.nilDeref())
	}
	m := in.methodByName(i.t, "Write")
	return in.callFn(fr, m, []Value{i.v, in.mkByteSlice(strBytes(s))}, nil)
}

func modelErrorf(in *Interp, fr *Frame, a []Value) Value {
	args := in.anyArgs(a[1])
	s := in.sprintf(fr, a[0], args)
	format, _ := a[0].(string)
	var wrapped Iface
	if strings.Count(format, "%w") == 1 {
		n := 0
		for i := 0; i+1 < len(format); i++ {
			if format[i] == '%' {
				if format[i+1] == '%' {
					i++
					continue
				}
				if format[i+1] == 'w' {
					break
				}
				n++
			}
		}
		if n < len(args) {
			wrapped = args[n]
		}
	}
	for _, p := range in.prog.ssa.AllPackages() {
		if wrapped.t != nil && p.Pkg.Path() == "fmt" {
			t := p.Pkg.Scope().Lookup("wrapError").Type()
			o := in.allocType(t)
			o.slots[0] = s
			o.slots[1] = wrapped
			return Iface{types.NewPointer(t), Ptr{o, 0}}
		}
	}
	return in.callFn(fr, in.stdFunc("errors", "New"), []Value{s}, nil)
}

func (in *Interp) sprint(fr *Frame, args []Iface, ln bool) Value {
	var out Value = ""
	prevStr := false
	for i, a := range args {
		isStr := a.t != nil && kindOf(a.t) == 24
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strCat(out, " ")
		}
		out = strCat(out, in.fmtValue(fr, a, 'v', false, 0))
		prevStr = isStr
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}

func (in *Interp) sprintf(fr *Frame, format Value, args []Iface) Value {
	f, ok := format.(string)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	var out Value = ""
	n := 0
	lit := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		out = strCat(out, f[lit:i])
		i++
		if i >= len(f) {
			out = strCat(out, "%!(NOVERB)")
			lit = i
			break
		}
		plus, sharp, zero, minus := false, false, false, false
		for i < len(f) {
			switch f[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case '-':
				minus = true
			case ' ':
			default:
				goto flagsDone
			}
			i++
		}
	flagsDone:
		width := 0
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && (f[i] == '*' || f[i] == '.' || f[i] == '[') {
			panic(unsupported("format " + f))
		}
		if i >= len(f) {
			out = strCat(out, "%!(NOVERB)")
			lit = i
			break
		}
		c := f[i]
		lit = i + 1
		if c == '%' {
			out = strCat(out, "%")
			continue
		}
		if n >= len(args) {
			out = strCat(out, "%!"+string(c)+"(MISSING)")
			continue
		}
		a := args[n]
		n++
		if sharp {
			panic(unsupported("format flag #"))
		}
		s := in.fmtValue(fr, a, c, plus, 0)
		if pad := width - strLen(s); pad > 0 {
			p := strings.Repeat(" ", pad)
			if zero && !minus {
				p = strings.Repeat("0", pad)
			}
			if minus {
				s = strCat(s, p)
			} else {
				s = strCat(p, s)
			}
		}
		out = strCat(out, s)
	}
	if lit < len(f) {
		out = strCat(out, f[lit:])
	}
	if n < len(args) {
		panic(unsupported("extra format arguments"))
	}
	return out
}

func (in *Interp) fmtValue(fr *Frame, a Iface, verb byte, plus bool, depth int) Value {
	if depth > 6 {
		panic(unsupported("fmt recursion"))
	}
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return typeName(a.t)
	}
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if o, ok := a.v.(Opaque); ok {
		if t, ok := o.x.(types.Type); ok {
			return typeName(t)
		}
		return fmtOpaque
	}
	a.v = fstr(a.v)
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			if m := in.methodByName(a.t, mn); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 &&
				isStringT(m.Signature.Results().At(0).Type()) {
				if p, ok := a.v.(Ptr); ok && p.obj == nil {
					return "<nil>"
				}
				s := in.callFn(fr, m, []Value{a.v}, nil)
				if verb == 'q' {
					return in.quoteGo(fr, s)
				}
				return s
			}
		}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'q' {
				return in.quoteGo(fr, a.v)
			}
			if verb == 'v' || verb == 's' || verb == 'w' {
				return a.v
			}
			if verb == 'x' {
				return modelHex(in, fr, []Value{a.v})
			}
			if s, ok := a.v.(string); ok && verb == 'd' {
				return "%!d(" + typeName(a.t) + "=" + s + ")"
			}
		case u.Info()&types.IsInteger != 0:
			w, _ := intWidth(a.t)
			switch verb {
			case 'v', 'd', 'w':
				s := in.formatInt(a.v, w, isSigned(a.t), uint64(10))
				if plus && strLen(s) > 0 && strByte(s, 0) != uint64('-') {
					return strCat("+", s)
				}
				return s
			case 'x':
				return in.formatInt(a.v, w, isSigned(a.t), uint64(16))
			case 's':
				return strCat(strCat("%!s("+typeName(a.t)+"=", in.formatInt(a.v, w, isSigned(a.t), uint64(10))), ")")
			case 'c':
				return in.runeToStr(a.v, w, isSigned(a.t))
			case 'q':
				if x, ok := a.v.(uint64); ok {
					return strconv.QuoteRune(rune(x))
				}
			}
		case u.Info()&types.IsBoolean != 0:
			if verb == 'v' || verb == 't' {
				if in.branchV(a.v) {
					return "true"
				}
				return "false"
			}
		case u.Info()&types.IsFloat != 0:
			f := flt(a.v)
			bits := 64
			if u.Kind() == types.Float32 {
				bits = 32
			}
			switch verb {
			case 'v':
				return fmtFloat(f, bits)
			case 'g':
				return strconv.FormatFloat(f, 'g', -1, bits)
			case 'f':
				return strconv.FormatFloat(f, 'f', 6, bits)
			}
		}
	case *types.Pointer:
		p, ok := a.v.(Ptr)
		if ok && p.obj == nil {
			if verb == 'v' {
				return "<nil>"
			}
		}
		if ok && depth == 0 && isAgg(u.Elem()) && p.obj != nil && verb == 'v' {
			return strCat("&", in.fmtValue(fr, Iface{u.Elem(), in.load(u.Elem(), p)}, verb, plus, depth+1))
		}
		return fmtOpaque
	case *types.Slice:
		s := a.v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x') {
			if verb == 'x' {
				return modelHex(in, fr, []Value{s})
			}
			return in.bytesToStr(s)
		}
		var out Value = "["
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out = strCat(out, " ")
			}
			out = strCat(out, in.fmtElem(fr, u.Elem(), in.sliceAt(s, u.Elem(), i), verb, plus, depth))
		}
		return strCat(out, "]")
	case *types.Struct:
		var out Value = "{"
		ag := a.v.(Agg)
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = strCat(out, " ")
			}
			if plus {
				out = strCat(out, u.Field(i).Name()+":")
			}
			ft := u.Field(i).Type()
			if !u.Field(i).Exported() {
				// fmt cannot call methods on unexported fields
				out = strCat(out, in.fmtPlain(fr, ft, in.aggGet(ag, in.fieldOff(u, i), ft), verb, plus, depth))
				continue
			}
			out = strCat(out, in.fmtElem(fr, ft, in.aggGet(ag, in.fieldOff(u, i), ft), verb, plus, depth))
		}
		return strCat(out, "}")
	case *types.Map:
		m := a.v.(*MapObj)
		if m == nil || m.live == 0 {
			return "map[]"
		}
		if m.live == 1 {
			for _, e := range m.ents {
				if !e.dead {
					return strCat(strCat(strCat(strCat("map[", in.fmtElem(fr, u.Key(), e.k, verb, plus, depth)), ":"),
						in.fmtElem(fr, u.Elem(), e.v, verb, plus, depth)), "]")
				}
			}
		}
	}
	switch a.t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Chan, *types.Array, *types.Map, *types.Interface:
		return fmtOpaque
	}
	panic(unsupported(fmt.Sprintf("fmt %%%c of %s", verb, a.t)))
}

// fmtOpaque stands for text that depends on addresses or that nothing but an error message prints.
// The native runs of sampled paths would tell if it ever became part of an observed text.
const fmtOpaque = "<printed by fmt>"

func (in *Interp) fmtPlain(fr *Frame, t types.Type, v Value, verb byte, plus bool, depth int) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return in.fmtValue(fr, Iface{u, v}, verb, plus, depth+1)
	}
	return fmtOpaque
}

func (in *Interp) fmtElem(fr *Frame, t types.Type, v Value, verb byte, plus bool, depth int) Value {
	if types.IsInterface(t) {
		return in.fmtValue(fr, v.(Iface), verb, plus, depth+1)
	}
	return in.fmtValue(fr, Iface{t, v}, verb, plus, depth+1)
}

func fmtFloat(f float64, bits int) string {
	s := strconv.FormatFloat(f, 'g', -1, bits)
	if bits == 32 {
		return fmt.Sprint(float32(f))
	}
	_ = s
	return fmt.Sprint(f)
}

func (in *Interp) quoteGo(fr *Frame, s Value) Value {
	if c, ok := s.(string); ok {
		return strconv.Quote(c)
	}
	return in.callFn(fr, in.stdFunc("strconv", "Quote"), []Value{s}, nil)
}

// ---- errors -----------------------------------------------------------------------

func (in *Interp) unwrap(fr *Frame, e Iface) (Iface, bool) {
	m := in.methodByName(e.t, "Unwrap")
	if m == nil || m.Signature.Results().Len() != 1 {
		return Iface{}, false
	}
	if !types.IsInterface(m.Signature.Results().At(0).Type()) {
		panic(unsupported("Unwrap() []error"))
	}
	r := in.callFn(fr, m, []Value{e.v}, nil).(Iface)
	return r, r.t != nil
}

func modelErrorsIs(in *Interp, fr *Frame, a []Value) Value {
	e, target := a[0].(Iface), a[1].(Iface)
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) && in.branchV(in.eqIface(e, target)) {
			return true
		}
		if m := in.methodByName(e.t, "Is"); m != nil {
			if in.branchV(in.callFn(fr, m, []Value{e.v, target}, nil)) {
				return true
			}
		}
		n, ok := in.unwrap(fr, e)
		if !ok {
			return false
		}
		e = n
	}
}

func modelErrorsAs(in *Interp, fr *Frame, a []Value) Value {
	e, target := a[0].(Iface), a[1].(Iface)
	pt := target.t.Underlying().(*types.Pointer).Elem()
	for e.t != nil {
		if it, ok := pt.Underlying().(*types.Interface); ok {
			if types.Implements(e.t, it) {
				in.store(pt, target.v, e)
				return true
			}
		} else if sameType(e.t, pt) {
			in.store(pt, target.v, e.v)
			return true
		}
		n, ok := in.unwrap(fr, e)
		if !ok {
			return false
		}
		e = n
	}
	return false
}

// ---- reflect ------------------------------------------------------------------------

type rv struct {
	t types.Type
	v Value
	// address, when the value is addressable
	p Ptr
}

func (in *Interp) mkRV(t types.Type, v Value) Value {
	return Agg{Opaque{rv{t: t, v: v}}, Ptr{}, uint64(0)}
}

func (in *Interp) rtype(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{types.Typ[types.UnsafePointer], Opaque{t}}
}

var kindNames = map[int]string{0: "invalid", 1: "bool", 2: "int", 3: "int8", 4: "int16", 5: "int32", 6: "int64", 7: "uint", 8: "uint8",
	9: "uint16", 10: "uint32", 11: "uint64", 12: "uintptr", 13: "float32", 14: "float64", 15: "complex64", 16: "complex128", 17: "array",
	18: "chan", 19: "func", 20: "interface", 21: "map", 22: "ptr", 23: "slice", 24: "string", 25: "struct", 26: "unsafe.Pointer"}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (in *Interp) reflectIndirect(fr *Frame, a []Value) Value {
	r := getRV(a[0])
	if r.t != nil && kindOf(r.t) == 22 {
		return in.reflectValueMethod(fr, "Elem", a)
	}
	return a[0]
}

func getRV(v Value) rv {
	ag := v.(Agg)
	if o, ok := ag[0].(Opaque); ok {
		if r, ok := o.x.(rv); ok {
			return r
		}
	}
	return rv{}
}

func (in *Interp) reflectValueMethod(fr *Frame, name string, a []Value) Value {
	r := getRV(a[0])
	wrap := func(t types.Type, v Value) Value {
		if types.IsInterface(t) {
			// reflect keeps interface-typed elements as Kind Interface
			return in.mkRV(t, v)
		}
		return in.mkRV(t, v)
	}
	if r.t == nil {
		switch name {
		case "IsValid":
			return false
		case "Kind":
			return uint64(0)
		}
		panic(in.rtPanic("reflect: call of reflect.Value." + name + " on zero Value"))
	}
	k := kindOf(r.t)
	bad := func() Value {
		panic(in.rtPanic("reflect: call of reflect.Value." + name + " on " + kindNames[k] + " Value"))
	}
	switch name {
	case "IsValid":
		return true
	case "Kind":
		return uint64(k)
	case "Type":
		return in.rtype(r.t)
	case "Interface":
		if types.IsInterface(r.t) {
			return r.v
		}
		return Iface{r.t, r.v}
	case "CanInterface":
		return true
	case "IsNil":
		switch x := r.v.(type) {
		case Ptr:
			return x.obj == nil
		case Slice:
			return x.obj == nil
		case *MapObj:
			return x == nil
		case *Closure:
			return x == nil
		case Iface:
			return x.t == nil
		}
		return bad()
	case "IsZero":
		z := in.zero(r.t)
		switch x := r.v.(type) {
		case Slice:
			return x.obj == nil
		case *MapObj:
			return x == nil
		case *Closure:
			return x == nil
		}
		return in.eqVals(r.t, r.v, z)
	case "Len":
		switch x := r.v.(type) {
		case Slice:
			return si(x.len)
		case string, *SymStr, *LazyStr:
			return si(strLen(x))
		case *MapObj:
			if x == nil {
				return si(0)
			}
			return si(x.live)
		case Agg:
			if at, ok := r.t.Underlying().(*types.Array); ok {
				return si(int(at.Len()))
			}
		}
		return bad()
	case "Index":
		i := int(in.intArg(a[1], 64, true))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := r.v.(Slice)
			if i < 0 || i >= s.len {
				panic(in.rtPanic("reflect: slice index out of range"))
			}
			return wrap(u.Elem(), in.sliceAt(s, u.Elem(), i))
		case *types.Array:
			if i < 0 || i >= int(u.Len()) {
				panic(in.rtPanic("reflect: array index out of range"))
			}
			return wrap(u.Elem(), in.aggGet(r.v.(Agg), i*in.nslots(u.Elem()), u.Elem()))
		case *types.Basic:
			return wrap(types.Typ[types.Uint8], strByte(r.v, i))
		}
		return bad()
	case "Elem":
		switch x := r.v.(type) {
		case Ptr:
			if x.obj == nil {
				return in.mkRV(nil, nil)
			}
			et := deref(r.t)
			return wrap(et, in.load(et, x))
		case Iface:
			if x.t == nil {
				return in.mkRV(nil, nil)
			}
			return in.mkRV(x.t, x.v)
		}
		return bad()
	case "Int":
		w, ok := intWidth(r.t)
		if !ok || !isSigned(r.t) {
			return bad()
		}
		return in.convInt(r.v, w, true, 64)
	case "Uint":
		w, ok := intWidth(r.t)
		if !ok || isSigned(r.t) {
			return bad()
		}
		return in.convInt(r.v, w, false, 64)
	case "Bool":
		if k != 1 {
			return bad()
		}
		return r.v
	case "Float":
		if k != 13 && k != 14 {
			return bad()
		}
		return r.v
	case "String":
		if k != 24 {
			return "<" + typeName(r.t) + " Value>"
		}
		return r.v
	case "Bytes":
		if s, ok := r.v.(Slice); ok {
			return s
		}
		return bad()
	case "NumField":
		if st, ok := r.t.Underlying().(*types.Struct); ok {
			return si(st.NumFields())
		}
		return bad()
	case "Field":
		if st, ok := r.t.Underlying().(*types.Struct); ok {
			i := int(conc(a[1]))
			ft := st.Field(i).Type()
			return wrap(ft, in.aggGet(r.v.(Agg), in.fieldOff(st, i), ft))
		}
		return bad()
	case "Pointer", "UnsafePointer":
		panic(unsupported("reflect pointer"))
	}
	panic(unsupported("reflect.Value." + name))
}

// opaqueMethod dispatches interface method calls on engine values (reflect.Type).
func (in *Interp) opaqueMethod(name string, a []Value) Value {
	t, ok := a[0].(Opaque).x.(types.Type)
	if !ok {
		panic(unsupported("method " + name + " on opaque value"))
	}
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "String":
		return typeName(t)
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return in.rtype(u.Elem())
		case *types.Slice:
			return in.rtype(u.Elem())
		case *types.Array:
			return in.rtype(u.Elem())
		case *types.Map:
			return in.rtype(u.Elem())
		}
	case "Comparable":
		return types.Comparable(t)
	case "Implements":
		if u, ok := a[1].(Iface).v.(Opaque).x.(types.Type); ok {
			if it, ok := u.Underlying().(*types.Interface); ok {
				return types.Implements(t, it)
			}
		}
	case "AssignableTo":
		if u, ok := a[1].(Iface).v.(Opaque).x.(types.Type); ok {
			return types.AssignableTo(t, u)
		}
	case "NumField":
		if st, ok := t.Underlying().(*types.Struct); ok {
			return si(st.NumFields())
		}
	}
	panic(unsupported("reflect.Type." + name))
}

func modelDeepEqual(in *Interp, fr *Frame, a []Value) Value {
	x, y := a[0].(Iface), a[1].(Iface)
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if !sameType(x.t, y.t) {
		return false
	}
	return in.deepEq(x.t, x.v, y.v, 0)
}

func (in *Interp) deepEq(t types.Type, a, b Value, d int) Value {
	if d > 50 {
		panic(unsupported("DeepEqual depth"))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !sameType(x.t, y.t) {
			return false
		}
		return in.deepEq(x.t, x.v, y.v, d+1)
	case *types.Pointer:
		x, y := a.(Ptr), b.(Ptr)
		if x == y {
			return true
		}
		if x.obj == nil || y.obj == nil {
			return false
		}
		return in.deepEq(u.Elem(), in.load(u.Elem(), x), in.load(u.Elem(), y), d+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x.obj == nil) != (y.obj == nil) || x.len != y.len {
			return false
		}
		var r Value = true
		for i := 0; i < x.len; i++ {
			r = in.andV(r, in.deepEq(u.Elem(), in.sliceAt(x, u.Elem(), i), in.sliceAt(y, u.Elem(), i), d+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		x, y := a.(*MapObj), b.(*MapObj)
		if x == y {
			return true
		}
		if x == nil || y == nil || x.live != y.live {
			return false
		}
		var r Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := in.mapFind(y, e.k)
			if f == nil {
				return false
			}
			r = in.andV(r, in.deepEq(u.Elem(), e.v, f.v, d+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			o := in.fieldOff(u, i)
			r = in.andV(r, in.deepEq(ft, in.aggGet(x, o, ft), in.aggGet(y, o, ft), d+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		es := in.nslots(u.Elem())
		var r Value = true
		for i := 0; i < int(u.Len()); i++ {
			r = in.andV(r, in.deepEq(u.Elem(), in.aggGet(x, i*es, u.Elem()), in.aggGet(y, i*es, u.Elem()), d+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Signature:
		return a.(*Closure) == nil && b.(*Closure) == nil
	}
	return in.eqVals(t, a, b)
}

// ---- sym intrinsics --------------------------------------------------------------------

func nameArg(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	panic(unsupported("symbolic label"))
}

func symIntModel(kind string, w uint8) modelFn {
	return func(in *Interp, fr *Frame, a []Value) Value { return in.newVar(nameArg(a[0]), kind, w) }
}

var symModels map[string]modelFn

func init() {
	symModels = map[string]modelFn{
		"Byte":   symIntModel("byte", 8),
		"Int8":   symIntModel("int8", 8),
		"Int16":  symIntModel("int16", 16),
		"Int32":  symIntModel("int32", 32),
		"Int64":  symIntModel("int64", 64),
		"Int":    symIntModel("int", 64),
		"Uint8":  symIntModel("uint8", 8),
		"Uint16": symIntModel("uint16", 16),
		"Uint32": symIntModel("uint32", 32),
		"Uint64": symIntModel("uint64", 64),
		"Uint":   symIntModel("uint", 64),
		"Bool": func(in *Interp, fr *Frame, a []Value) Value {
			t := in.newVar(nameArg(a[0]), "bool", 0)
			return t
		},
		"Str": func(in *Interp, fr *Frame, a []Value) Value {
			n := int(conc(a[1]))
			name := nameArg(a[0])
			b := make([]Value, n)
			for i := range b {
				b[i] = in.newVar(name, "byte", 8)
			}
			return mkStr(b)
		},
		"Text": func(in *Interp, fr *Frame, a []Value) Value {
			lo, hi := int(conc(a[1])), int(conc(a[2]))
			if in.specStart != 0 {
				panic(specAbort{"new input"})
			}
			l := &LazyStr{in: in, name: nameArg(a[0]), id: in.p.lazy}
			in.p.lazy++
			for n := lo; n <= hi; n++ {
				l.lens = append(l.lens, n)
			}
			in.p.inputs = append(in.p.inputs, inputRec{Name: l.name, Kind: "lazy", val: l})
			return l
		},
		"Float64": func(in *Interp, fr *Frame, a []Value) Value { return in.newFloat(nameArg(a[0]), false) },
		"Float32": func(in *Interp, fr *Frame, a []Value) Value { return in.newFloat(nameArg(a[0]), true) },
		"Clock": func(in *Interp, fr *Frame, a []Value) Value { return Agg{a[0], a[1], a[2]} },
		"SameFloat": func(in *Interp, fr *Frame, a []Value) Value {
			if a[0] == a[1] {
				return true
			}
			return math.Float64bits(flt(a[0])) == math.Float64bits(flt(a[1]))
		},
		"Choose": func(in *Interp, fr *Frame, a []Value) Value {
			n := int(conc(a[1]))
			if n <= 0 {
				panic(pathEnd{"assume"})
			}
			if in.specStart != 0 {
				panic(specAbort{"choose"})
			}
			k := in.choose(n)
			in.p.inputs = append(in.p.inputs, inputRec{Name: nameArg(a[0]), Kind: "choose", val: uint64(k)})
			return uint64(k)
		},
		"Concretize": func(in *Interp, fr *Frame, a []Value) Value {
			return uint64(in.intArg(a[0], 64, true))
		},
		"Assume": func(in *Interp, fr *Frame, a []Value) Value { in.assume(a[0]); return nil },
		"Assert": func(in *Interp, fr *Frame, a []Value) Value {
			in.assert(a[0], in.evalStr(a[1], in.p.model))
			return nil
		},
		"Cover": func(in *Interp, fr *Frame, a []Value) Value {
			if in.specStart != 0 {
				panic(specAbort{"cover"})
			}
			in.p.covers[nameArg(a[0])] = true
			return nil
		},
		"Observe": func(in *Interp, fr *Frame, a []Value) Value {
			if in.specStart != 0 {
				panic(specAbort{"observe"})
			}
			in.p.obs = append(in.p.obs, obsRec{nameArg(a[0]), a[1]})
			return nil
		},
		"Bound": func(in *Interp, fr *Frame, a []Value) Value {
			if in.ex.tier == "thorough" {
				return a[1]
			}
			return a[0]
		},
		"freeze": func(in *Interp, fr *Frame, a []Value) Value {
			if in.specStart != 0 {
				panic(specAbort{"freeze"})
			}
			in.nfrz++
			seen := map[any]bool{}
			s := a[0].(Slice)
			for _, v := range in.sliceElems(s) {
				in.freeze(v, in.nfrz, seen)
			}
			return uint64(in.nfrz)
		},
		"watch": func(in *Interp, fr *Frame, a []Value) Value {
			if in.specStart != 0 {
				panic(specAbort{"watch"})
			}
			in.watch = int32(conc(a[0]))
			return nil
		},
		"touched": func(in *Interp, fr *Frame, a []Value) Value {
			_, t := in.touches[int32(conc(a[0]))]
			return t
		},
		"parallel": func(in *Interp, fr *Frame, a []Value) Value {
			if in.specStart != 0 {
				panic(specAbort{"parallel"})
			}
			in.callValue(fr, a[0], nil)
			return nil
		},
		"MapOrder": func(in *Interp, fr *Frame, a []Value) Value {
			in.p.mapMode = int(conc(a[0]))
			return nil
		},
		"thaw": func(in *Interp, fr *Frame, a []Value) Value { return nil },
	}
}

// freeze marks everything reachable from v; writes to it are reported by touched.
func (in *Interp) freeze(v Value, g int32, seen map[any]bool) {
	switch x := v.(type) {
	case Ptr:
		in.freezeObj(x.obj, g, seen)
	case *SymPtr:
		in.freezeObj(x.obj, g, seen)
	case Slice:
		in.freezeObj(x.obj, g, seen)
	case Iface:
		in.freeze(x.v, g, seen)
	case Agg:
		for _, y := range x {
			in.freeze(y, g, seen)
		}
	case *Closure:
		if x != nil && !seen[x] {
			seen[x] = true
			for _, y := range x.env {
				in.freeze(y, g, seen)
			}
		}
	case *MapObj:
		if x != nil && !seen[x] {
			seen[x] = true
			in.undoFrz(nil, x)
			x.frz = g
			for _, e := range x.ents {
				in.freeze(e.k, g, seen)
				in.freeze(e.v, g, seen)
			}
		}
	}
}

func (in *Interp) freezeObj(o *Obj, g int32, seen map[any]bool) {
	if o == nil || seen[o] || o.epoch == 0 {
		return // package-level state is not part of a builder
	}
	seen[o] = true
	o.frz = g
	for _, y := range o.slots {
		in.freeze(y, g, seen)
	}
}

func (in *Interp) undoFrz(o *Obj, m *MapObj) {}

var _ = sort.Strings

// caseMap flips the case of the ASCII letters between lo and hi without a branch per letter. It declines, leaving the
// work to the library's code, unless every byte is known to be ASCII.
func (in *Interp) caseMap(v Value, lo, hi uint64) Value {
	s, ok := v.(*SymStr)
	if !ok || in.initDepth > 0 {
		return declined{}
	}
	tt := in.tt
	n := strLen(s)
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		switch b := strByte(s, i).(type) {
		case uint64:
			if b >= 0x80 {
				return declined{}
			}
			if b >= lo && b <= hi {
				b ^= 0x20
			}
			out[i] = b
		case *Term:
			if in.refuted(tt.Cmp(OpUlt, b, tt.BV(0x80, 8))) {
				return declined{}
			}
			if !in.refuted(tt.Not(tt.Cmp(OpUlt, b, tt.BV(0x80, 8)))) && in.feasible(tt.Not(tt.Cmp(OpUlt, b, tt.BV(0x80, 8)))) {
				return declined{}
			}
			letter := tt.And(tt.Cmp(OpUle, tt.BV(lo, 8), b), tt.Cmp(OpUle, b, tt.BV(hi, 8)))
			out[i] = norm(tt.Ite(letter, tt.Bin(OpBxor, b, tt.BV(0x20, 8)), b))
		}
	}
	return mkStr(out)
}
