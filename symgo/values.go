package main

// Run-time values of the symbolic interpreter.
//
//   ints            uint64 (masked to the width) or *Term of that width
//   bools           bool or *Term of width 0
//   floats          float64 / complex128, always concrete
//   strings         string or *SymStr (concrete length, bytes may be symbolic)
//   pointers        Ptr (object + slot) or *SymPtr (slot chosen by a symbolic index)
//   slices          Slice
//   maps            *MapObj (nil map = (*MapObj)(nil))
//   interfaces      Iface (nil interface = Iface{})
//   functions       *Closure (nil func = (*Closure)(nil))
//   structs/arrays  Agg, flattened to slots, immutable by convention
//   results         Tuple

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

type SymStr struct{ b []Value }

type Ptr struct {
	obj *Obj
	off int
}

type SymPtr struct {
	obj *Obj
	off int // slot of element 0
	es  int // slots per element
	n   int // number of elements
	idx *Term
	add int // offset within the element
}

type Slice struct {
	obj *Obj
	off int
	len int
	cap int
	es  int
}

type Obj struct {
	slots []Value
	id    int64
	epoch int64 // path in which it was created; 0 = base (package initialisation)
	saved int64 // last path that logged an undo copy
	frz   int32 // freeze group, 0 = none
	name  string
}

type mapEntry struct {
	k, v Value
	dead bool
}

type MapObj struct {
	ents  []*mapEntry
	idx   map[any]int // concrete keys
	symK  int         // number of live entries with symbolic keys
	live  int
	id    int64
	epoch int64
	saved int64
	frz   int32
	kt    types.Type
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, args []Value) Value
	name   string
}

type Agg []Value
type Tuple []Value

type Poison struct{ why string }

// Opaque carries an engine-side payload through interpreted code (reflect.Value, iterators, ...).
type Opaque struct{ x any }

type mapIter struct {
	m     *MapObj
	todo  []*mapEntry
	start bool
	big   bool // too many entries to try every order
	back  bool
}
type strIter struct {
	s   Value
	pos int
}

// ---- strings -------------------------------------------------------------

func strLen(v Value) int {
	v = fstr(v)
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v)))
}

func strByte(v Value, i int) Value {
	v = fstr(v)
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic(unsupported("strByte"))
}

func strBytes(v Value) []Value {
	v = fstr(v)
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("strBytes of %T", v)))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			if _, isT := x.(*Term); !isT {
				panic(unsupported(fmt.Sprintf("byte of type %T in a string", x)))
			}
			return &SymStr{b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func strSlice(v Value, lo, hi int) Value {
	v = fstr(v)
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic(unsupported("strSlice"))
}

func strCat(a, b Value) Value {
	a, b = fstr(a), fstr(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	xa, ya := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(xa)+len(ya))
	out = append(out, xa...)
	out = append(out, ya...)
	return &SymStr{out}
}

// ---- layout --------------------------------------------------------------

func (in *Interp) nslots(t types.Type) int {
	if n, ok := in.slotCache[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += in.nslots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * in.nslots(u.Elem())
	}
	in.slotCache[t] = n
	return n
}

func (in *Interp) fieldOff(st *types.Struct, f int) int {
	o := in.fieldCache[st]
	if o == nil {
		o = make([]int, st.NumFields()+1)
		for i := 0; i < st.NumFields(); i++ {
			o[i+1] = o[i] + in.nslots(st.Field(i).Type())
		}
		in.fieldCache[st] = o
	}
	return o[f]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (in *Interp) zeroInto(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = in.zeroInto(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		if u.Len() == 0 {
			return out
		}
		if !isAgg(u.Elem()) {
			z := in.zero(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, z)
			}
			return out
		}
		for i := int64(0); i < u.Len(); i++ {
			out = in.zeroInto(u.Elem(), out)
		}
		return out
	}
	return append(out, in.zero(t))
}

var zeroInt Value = uint64(0)

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return zeroInt
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{es: in.nslots(u.Elem())}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct, *types.Array:
		return Agg(in.zeroInto(t, make([]Value, 0, in.nslots(t))))
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = in.zero(u.At(i).Type())
		}
		return out
	}
	panic(unsupported("zero of " + t.String()))
}

// ---- memory --------------------------------------------------------------

func (in *Interp) newObj(n int) *Obj {
	in.nextObj++
	o := &Obj{slots: make([]Value, n), id: in.nextObj}
	if in.initDepth == 0 {
		o.epoch = in.epoch
	}
	return o
}

func (in *Interp) allocType(t types.Type) *Obj {
	in.nextObj++
	o := &Obj{id: in.nextObj}
	if in.initDepth == 0 {
		o.epoch = in.epoch
	}
	o.slots = in.zeroInto(t, make([]Value, 0, in.nslots(t)))
	return o
}

type undoRec struct {
	o     *Obj
	slots []Value
	m     *MapObj
	ms    MapObj
}

func (in *Interp) beforeWrite(o *Obj) {
	if in.specStart != 0 && o.id < in.specStart {
		panic(specAbort{"store"})
	}
	if o.frz != 0 && in.lockDepth == 0 {
		in.noteTouch(o.frz, o.name)
	}
	if in.watch != 0 && o.epoch != in.epoch && in.lockDepth == 0 && in.initDepth == 0 {
		in.noteTouch(in.watch, "package state "+o.name)
	}
	if o.epoch != in.epoch && o.saved != in.epoch && in.initDepth == 0 {
		o.saved = in.epoch
		cp := make([]Value, len(o.slots))
		copy(cp, o.slots)
		in.undo = append(in.undo, undoRec{o: o, slots: cp})
	}
}

func (in *Interp) beforeMapWrite(m *MapObj) {
	if in.specStart != 0 && m.id < in.specStart {
		panic(specAbort{"map store"})
	}
	if m.frz != 0 && in.lockDepth == 0 {
		in.noteTouch(m.frz, "map")
	}
	if in.watch != 0 && m.epoch != in.epoch && in.lockDepth == 0 && in.initDepth == 0 {
		in.noteTouch(in.watch, "package state (map)")
	}
	if m.epoch != in.epoch && m.saved != in.epoch && in.initDepth == 0 {
		m.saved = in.epoch
		cp := *m
		cp.ents = nil
		for _, e := range m.ents {
			x := *e
			cp.ents = append(cp.ents, &x)
		}
		cp.idx = map[any]int{}
		for k, v := range m.idx {
			cp.idx[k] = v
		}
		in.undo = append(in.undo, undoRec{m: m, ms: cp})
	}
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		u := in.undo[i]
		if u.o != nil {
			u.o.slots = u.slots
			u.o.frz = 0
		} else {
			id := u.m.id
			*u.m = u.ms
			u.m.id = id
			u.m.frz = 0
		}
	}
	in.undo = in.undo[:0]
}

func (in *Interp) load(t types.Type, p Value) Value {
	switch p := p.(type) {
	case Ptr:
		if p.obj == nil {
			panic(in.nilDeref())
		}
		if isAgg(t) {
			n := in.nslots(t)
			if p.off+n > len(p.obj.slots) {
				panic(unsupported("load beyond object"))
			}
			cp := make(Agg, n)
			copy(cp, p.obj.slots[p.off:p.off+n])
			return cp
		}
		if p.off >= len(p.obj.slots) {
			panic(unsupported("load beyond object"))
		}
		v := p.obj.slots[p.off]
		if pz, ok := v.(Poison); ok {
			panic(unsupported("read of uninitialised: " + pz.why))
		}
		// reinterpretation through unsafe pointers: []byte seen as string
		if s, ok := v.(Slice); ok {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return in.bytesToStr(s)
			}
		}
		return v
	case *SymPtr:
		return in.symLoad(t, p)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (in *Interp) symLoad(t types.Type, p *SymPtr) Value {
	if !isAgg(t) {
		w, isInt := intWidth(t)
		isBool := isBoolT(t)
		if isInt || isBool {
			// group by value
			var acc Value
			ok := true
			type run struct {
				v      Value
				lo, hi int
			}
			var runs []run
			for i := 0; i < p.n && ok; i++ {
				v := p.obj.slots[p.off+i*p.es+p.add]
				switch v.(type) {
				case uint64, bool, *Term:
				default:
					ok = false
				}
				if len(runs) > 0 && runs[len(runs)-1].v == v {
					runs[len(runs)-1].hi = i
				} else {
					runs = append(runs, run{v, i, i})
				}
			}
			if ok && p.n > 0 {
				tt := in.tt
				iw := p.idx.w
				acc = runs[len(runs)-1].v
				at := in.toTerm(acc, w)
				for i := len(runs) - 2; i >= 0; i-- {
					var c *Term
					r := runs[i]
					// runs are ordered: idx <= hi separates run i from later ones
					c = tt.Cmp(OpUle, p.idx, tt.BV(uint64(r.hi), iw))
					at = tt.Ite(c, in.toTerm(r.v, w), at)
				}
				return norm(at)
			}
		}
	}
	return in.load(t, in.concretizePtr(p))
}

func (in *Interp) concretizePtr(p *SymPtr) Ptr {
	i := in.concretize(p.idx, p.idx.w)
	return Ptr{p.obj, p.off + int(i)*p.es + p.add}
}

func (in *Interp) store(t types.Type, p Value, v Value) {
	if sp, ok := p.(*SymPtr); ok {
		p = in.concretizePtr(sp)
	}
	q, ok := p.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("store through %T", p)))
	}
	if q.obj == nil {
		panic(in.nilDeref())
	}
	in.beforeWrite(q.obj)
	if a, ok := v.(Agg); ok {
		if q.off+len(a) > len(q.obj.slots) {
			panic(unsupported("store beyond object"))
		}
		copy(q.obj.slots[q.off:], a)
		return
	}
	if q.off >= len(q.obj.slots) {
		panic(unsupported("store beyond object"))
	}
	q.obj.slots[q.off] = v
}

func (in *Interp) bytesToStr(s Slice) Value {
	if s.len == 0 {
		return ""
	}
	b := make([]Value, s.len)
	copy(b, s.obj.slots[s.off:s.off+s.len])
	return mkStr(b)
}

func (in *Interp) sliceElems(s Slice) []Value { // flattened
	if s.len == 0 {
		return nil
	}
	return s.obj.slots[s.off : s.off+s.len*s.es]
}

func (in *Interp) sliceAt(s Slice, et types.Type, i int) Value {
	return in.load(et, Ptr{s.obj, s.off + i*s.es})
}

func (in *Interp) mkSlice(vals []Value, es int) Slice {
	o := in.newObj(0)
	o.slots = vals
	n := len(vals)
	if es > 0 {
		n /= es
	}
	return Slice{obj: o, len: n, cap: n, es: es}
}

func (in *Interp) mkByteSlice(b []Value) Slice {
	cp := make([]Value, len(b))
	copy(cp, b)
	return in.mkSlice(cp, 1)
}

// ---- kinds ---------------------------------------------------------------

func intWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// toTerm converts an int/bool value to a term (w ignored for bools).
func (in *Interp) toTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return in.tt.BV(x, w)
	case bool:
		return in.tt.Bool(x)
	}
	panic(unsupported(fmt.Sprintf("toTerm of %T", v)))
}

func norm(t *Term) Value {
	if t.op == OpConst {
		if t.w == 0 {
			return t.val == 1
		}
		return t.val
	}
	return t
}

func toInt(v Value) (int, bool) {
	if x, ok := v.(uint64); ok {
		return int(int64(x)), true
	}
	return 0, false
}

func mkInt(i int) Value { return uint64(i) }

// ---- equality ------------------------------------------------------------

func (in *Interp) strEq(a, b Value) Value {
	if l, ok := a.(*LazyStr); ok {
		if a == b {
			return true
		}
		if m, ok := b.(*LazyStr); ok {
			b = m.force()
		}
		if !l.narrow(strLen(b)) {
			return false
		}
		a = l.val
	} else if l, ok := b.(*LazyStr); ok {
		if !l.narrow(strLen(a)) {
			return false
		}
		b = l.val
	}
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	t := in.tt.True
	n := strLen(a)
	for i := 0; i < n; i++ {
		t = in.tt.And(t, in.tt.Eq(in.toTerm(strByte(a, i), 8), in.toTerm(strByte(b, i), 8)))
		if t == in.tt.False {
			return false
		}
	}
	return norm(t)
}

func (in *Interp) strLess(a, b Value, orEq bool) Value {
	a, b = fstr(a), fstr(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		if orEq {
			return x <= y
		}
		return x < y
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	var t *Term
	if orEq {
		t = in.tt.Bool(la <= lb)
	} else {
		t = in.tt.Bool(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		p, q := in.toTerm(strByte(a, i), 8), in.toTerm(strByte(b, i), 8)
		t = in.tt.Or(in.tt.Cmp(OpUlt, p, q), in.tt.And(in.tt.Eq(p, q), t))
	}
	return norm(t)
}

func (in *Interp) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return norm(in.tt.And(a.(*Term), b.(*Term)))
}

func (in *Interp) notV(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return norm(in.tt.Not(a.(*Term)))
}

func (in *Interp) eqVals(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return in.strEq(a, b)
		case u.Info()&types.IsInteger != 0, u.Info()&types.IsBoolean != 0:
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return x == y
				}
			}
			if x, ok := a.(bool); ok {
				if y, ok := b.(bool); ok {
					return x == y
				}
			}
			w, _ := intWidth(t)
			return norm(in.tt.Eq(in.toTerm(a, w), in.toTerm(b, w)))
		case u.Info()&types.IsFloat != 0:
			_, ok1 := a.(*LazyFloat)
			_, ok2 := b.(*LazyFloat)
			if ok1 || ok2 {
				return in.cmpFloats(token.EQL, a, b)
			}
			return a.(float64) == b.(float64)
		case u.Info()&types.IsComplex != 0:
			return a.(complex128) == b.(complex128)
		case u.Kind() == types.UnsafePointer:
			return in.ptrEq(a, b)
		case u.Kind() == types.UntypedNil:
			return true
		}
	case *types.Pointer, *types.Chan:
		return in.ptrEq(a, b)
	case *types.Interface:
		return in.eqIface(a.(Iface), b.(Iface))
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			ft := u.Field(i).Type()
			o := in.fieldOff(u, i)
			r = in.andV(r, in.eqVals(ft, in.aggGet(x, o, ft), in.aggGet(y, o, ft)))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		var r Value = true
		es := in.nslots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = in.andV(r, in.eqVals(u.Elem(), in.aggGet(x, i*es, u.Elem()), in.aggGet(y, i*es, u.Elem())))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		return a.(*MapObj) == b.(*MapObj)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		return x.obj == nil && y.obj == nil
	case *types.Signature:
		x, y := a.(*Closure), b.(*Closure)
		return x == nil && y == nil
	}
	panic(unsupported("comparison of " + t.String()))
}

func (in *Interp) ptrEq(a, b Value) Value {
	if sp, ok := a.(*SymPtr); ok {
		a = in.concretizePtr(sp)
	}
	if sp, ok := b.(*SymPtr); ok {
		b = in.concretizePtr(sp)
	}
	x, ok1 := a.(Ptr)
	y, ok2 := b.(Ptr)
	if ok1 && ok2 {
		return x == y
	}
	panic(unsupported(fmt.Sprintf("pointer comparison %T %T", a, b)))
}

func (in *Interp) aggGet(a Agg, off int, t types.Type) Value {
	if isAgg(t) {
		n := in.nslots(t)
		return a[off : off+n : off+n]
	}
	v := a[off]
	if pz, ok := v.(Poison); ok {
		panic(unsupported("read of uninitialised: " + pz.why))
	}
	return v
}

func sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func (in *Interp) eqIface(a, b Iface) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !sameType(a.t, b.t) {
		return false
	}
	if !types.Comparable(a.t) {
		panic(in.rtPanic("comparing uncomparable type " + a.t.String()))
	}
	if o, ok := a.v.(Opaque); ok {
		p, ok := b.v.(Opaque)
		if ok {
			if x, ok := o.x.(types.Type); ok {
				if y, ok := p.x.(types.Type); ok {
					return sameType(x, y)
				}
			}
			return o.x == p.x
		}
		return false
	}
	return in.eqVals(a.t, a.v, b.v)
}

// ---- maps ----------------------------------------------------------------

// concreteKey maps a fully concrete key to a Go-comparable canonical form.
func (in *Interp) concreteKey(t types.Type, v Value) (any, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, complex128, Ptr:
		return x, true
	case *LazyStr:
		return in.concreteKey(t, x.force())
	case *LazyFloat:
		return in.concreteKey(t, x.force())
	case *SymStr, *Term, *SymPtr:
		return nil, false
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		if !types.Comparable(x.t) {
			panic(in.rtPanic("hash of unhashable type " + x.t.String()))
		}
		k, ok := in.concreteKey(x.t, x.v)
		if !ok {
			return nil, false
		}
		return [2]any{in.typeID(x.t), k}, true
	case Agg:
		st, isStruct := t.Underlying().(*types.Struct)
		var parts [4]any
		var n int
		add := func(k any) bool {
			if n >= 4 {
				return false
			}
			parts[n] = k
			n++
			return true
		}
		if isStruct {
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				k, ok := in.concreteKey(ft, in.aggGet(x, in.fieldOff(st, i), ft))
				if !ok || !add(k) {
					return nil, false
				}
			}
			return parts, true
		}
		return nil, false
	case Opaque:
		if tt, ok := x.x.(types.Type); ok {
			return in.typeID(tt), true
		}
		return nil, false
	}
	return nil, false
}

func (in *Interp) typeID(t types.Type) int {
	if id := in.typeIDs.At(t); id != nil {
		return id.(int)
	}
	n := in.typeIDs.Len() + 1
	in.typeIDs.Set(t, n)
	return n
}

func (in *Interp) newMap(kt types.Type) *MapObj {
	in.nextObj++
	m := &MapObj{id: in.nextObj, idx: map[any]int{}, kt: kt}
	if in.initDepth == 0 {
		m.epoch = in.epoch
	}
	return m
}

// mapFind returns the entry whose key equals k (forking when that is symbolic).
func (in *Interp) mapFind(m *MapObj, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, conc := in.concreteKey(m.kt, k)
	if conc {
		if i, ok := m.idx[ck]; ok && !m.ents[i].dead {
			return m.ents[i]
		}
		if m.symK == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := in.concreteKey(m.kt, e.k); c2 {
				continue
			}
		}
		if in.branchV(in.eqVals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	in.beforeMapWrite(m)
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	if ck, ok := in.concreteKey(m.kt, k); ok {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.symK++
	}
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	in.beforeMapWrite(m)
	if e := in.mapFind(m, k); e != nil {
		e.dead = true
		m.live--
		if _, ok := in.concreteKey(m.kt, e.k); !ok {
			m.symK--
		}
	}
}
