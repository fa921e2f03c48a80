package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) binop(op token.Token, ci *cInstr, a, b Value, yt types.Type) Value {
	t := ci.t
	switch op {
	case token.EQL:
		return in.eqVals(t, a, b)
	case token.NEQ:
		return in.notV(in.eqVals(t, a, b))
	}
	switch x := a.(type) {
	case string, *SymStr, *LazyStr:
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return in.strLess(a, b, false)
		case token.LEQ:
			return in.strLess(a, b, true)
		case token.GTR:
			return in.strLess(b, a, false)
		case token.GEQ:
			return in.strLess(b, a, true)
		}
	case *LazyFloat:
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return in.cmpFloats(op, a, b)
		}
		return in.binop(op, ci, x.force(), b, yt)
	case float64:
		if _, ok := b.(*LazyFloat); ok {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return in.cmpFloats(op, a, b)
			}
		}
		y := flt(b)
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case uint64:
		if y, ok := b.(uint64); ok {
			return in.intop(op, ci, x, y, yt)
		}
		if y, ok := b.(*Term); ok {
			return in.termop(op, ci, in.tt.BV(x, ci.w), y, yt)
		}
	case *Term:
		if x.w == 0 {
			break
		}
		switch y := b.(type) {
		case *Term:
			return in.termop(op, ci, x, y, yt)
		case uint64:
			w, _ := intWidth(yt)
			return in.termop(op, ci, x, in.tt.BV(y, w), yt)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
}

func (in *Interp) intop(op token.Token, ci *cInstr, x, y uint64, yt types.Type) Value {
	w := ci.w
	m := mask(w)
	switch op {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.QUO, token.REM:
		if y == 0 {
			panic(in.rtPanic("integer divide by zero"))
		}
		if ci.s {
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == -1 {
				if op == token.QUO {
					return uint64(-sx) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(sx/sy) & m
			}
			return uint64(sx%sy) & m
		}
		if op == token.QUO {
			return x / y
		}
		return x % y
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.SHL, token.SHR:
		yw, _ := intWidth(yt)
		if isSigned(yt) && sext64(y, yw) < 0 {
			panic(in.rtPanic("negative shift amount"))
		}
		if op == token.SHL {
			if y >= 64 {
				return uint64(0)
			}
			return (x << y) & m
		}
		if ci.s {
			if y > 63 {
				y = 63
			}
			return uint64(sext64(x, w)>>y) & m
		}
		if y >= 64 {
			return uint64(0)
		}
		return x >> y
	case token.LSS:
		if ci.s {
			return sext64(x, w) < sext64(y, w)
		}
		return x < y
	case token.LEQ:
		if ci.s {
			return sext64(x, w) <= sext64(y, w)
		}
		return x <= y
	case token.GTR:
		if ci.s {
			return sext64(x, w) > sext64(y, w)
		}
		return x > y
	case token.GEQ:
		if ci.s {
			return sext64(x, w) >= sext64(y, w)
		}
		return x >= y
	}
	panic(unsupported("intop " + op.String()))
}

func (in *Interp) termop(op token.Token, ci *cInstr, x, y *Term, yt types.Type) Value {
	tt := in.tt
	lt, le := OpUlt, OpUle
	if ci.s {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.ADD:
		return norm(tt.Bin(OpAdd, x, y))
	case token.SUB:
		return norm(tt.Bin(OpSub, x, y))
	case token.MUL:
		return norm(tt.Bin(OpMul, x, y))
	case token.QUO, token.REM:
		if !in.branch(tt.Not(tt.Eq(y, tt.BV(0, y.w)))) {
			panic(in.rtPanic("integer divide by zero"))
		}
		o := OpUdiv
		switch {
		case op == token.QUO && ci.s:
			o = OpSdiv
		case op == token.REM && ci.s:
			o = OpSrem
		case op == token.REM:
			o = OpUrem
		}
		return norm(tt.Bin(o, x, y))
	case token.AND:
		return norm(tt.Bin(OpBand, x, y))
	case token.OR:
		return norm(tt.Bin(OpBor, x, y))
	case token.XOR:
		return norm(tt.Bin(OpBxor, x, y))
	case token.AND_NOT:
		return norm(tt.Bin(OpBand, x, tt.Bnot(y)))
	case token.SHL, token.SHR:
		yw := y.w
		if isSigned(yt) && !y.isConst() {
			if !in.branch(tt.Cmp(OpSle, tt.BV(0, yw), y)) {
				panic(in.rtPanic("negative shift amount"))
			}
		}
		o := OpShl
		if op == token.SHR {
			o = OpLshr
			if ci.s {
				o = OpAshr
			}
		}
		var big *Term = tt.False
		var ys *Term
		if yw > x.w {
			big = tt.Cmp(OpUle, tt.BV(uint64(x.w), yw), y)
			ys = tt.Resize(y, x.w, false)
		} else {
			ys = tt.Resize(y, x.w, false)
		}
		r := tt.Bin(o, x, ys)
		if big != tt.False {
			var sat *Term
			if o == OpAshr {
				sat = tt.Bin(OpAshr, x, tt.BV(uint64(x.w)-1, x.w))
			} else {
				sat = tt.BV(0, x.w)
			}
			r = tt.Ite(big, sat, r)
		}
		return norm(r)
	case token.LSS:
		return norm(tt.Cmp(lt, x, y))
	case token.LEQ:
		return norm(tt.Cmp(le, x, y))
	case token.GTR:
		return norm(tt.Cmp(lt, y, x))
	case token.GEQ:
		return norm(tt.Cmp(le, y, x))
	}
	panic(unsupported("termop " + op.String()))
}

func (in *Interp) convInt(v Value, fw uint8, signed bool, tw uint8) Value {
	switch x := v.(type) {
	case uint64:
		if signed {
			return uint64(sext64(x, fw)) & mask(tw)
		}
		return x & mask(tw)
	case *Term:
		return norm(in.tt.Resize(x, tw, signed))
	}
	panic(unsupported(fmt.Sprintf("convInt %T", v)))
}

func (in *Interp) convert(v Value, ft, tt types.Type) Value {
	fu, tu := ft.Underlying(), tt.Underlying()
	if pz, ok := v.(Poison); ok {
		panic(unsupported("use of uninitialised: " + pz.why))
	}
	// core types of type parameters have been instantiated away
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	switch {
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0:
		fw, _ := intWidth(fu)
		switch {
		case tb.Info()&types.IsInteger != 0:
			tw, _ := intWidth(tu)
			return in.convInt(v, fw, isSigned(fu), tw)
		case tb.Info()&types.IsFloat != 0:
			u, ok := v.(uint64)
			if !ok {
				panic(unsupported("symbolic int to float"))
			}
			var f float64
			if isSigned(fu) {
				f = float64(sext64(u, fw))
			} else {
				f = float64(u)
			}
			if tb.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case tb.Info()&types.IsString != 0:
			return in.runeToStr(v, fw, isSigned(fu))
		case tb.Kind() == types.UnsafePointer:
			return v
		}
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0:
		if l, ok := v.(*LazyFloat); ok && tb.Info()&types.IsFloat != 0 && (l.small || tb.Kind() != types.Float32) {
			return l
		}
		f := flt(v)
		switch {
		case tb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case tb.Info()&types.IsInteger != 0:
			tw, _ := intWidth(tu)
			if isSigned(tu) {
				return uint64(int64(f)) & mask(tw)
			}
			return uint64(f) & mask(tw)
		}
	case fIsB && tIsB && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fIsB && tIsB && fb.Info()&types.IsComplex != 0:
		return v
	case fIsB && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok {
			w, _ := intWidth(sl.Elem())
			if w == 8 {
				return in.mkByteSlice(strBytes(v))
			}
			return in.strToRunes(v)
		}
	case tIsB && tb.Info()&types.IsString != 0:
		if sl, ok := fu.(*types.Slice); ok {
			w, _ := intWidth(sl.Elem())
			s := v.(Slice)
			if w == 8 {
				return in.bytesToStr(s)
			}
			var out Value = ""
			for i := 0; i < s.len; i++ {
				out = strCat(out, in.runeToStr(s.obj.slots[s.off+i], 32, true))
			}
			return out
		}
	case tIsB && tb.Kind() == types.UnsafePointer, fIsB && fb.Kind() == types.UnsafePointer:
		if tIsB && tb.Kind() == types.Uintptr {
			panic(unsupported("pointer to uintptr"))
		}
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("convert " + ft.String() + " to " + tt.String()))
}

func (in *Interp) runeToStr(v Value, w uint8, signed bool) Value {
	switch x := v.(type) {
	case uint64:
		var i int64
		if signed {
			i = sext64(x, w)
		} else {
			i = int64(x)
		}
		if i < 0 || i > utf8.MaxRune {
			return string(rune(utf8.RuneError))
		}
		return string(rune(i))
	case *Term:
		t := in.tt.Resize(x, 64, signed)
		if in.branch(in.tt.Cmp(OpUlt, t, in.tt.BV(0x80, 64))) {
			return mkStr([]Value{norm(in.tt.Resize(t, 8, false))})
		}
		if !in.branch(in.tt.Cmp(OpUle, t, in.tt.BV(utf8.MaxRune, 64))) {
			return string(rune(utf8.RuneError))
		}
		f := in.stdFunc("unicode/utf8", "AppendRune")
		r := in.callFn(nil, f, []Value{Slice{es: 1}, norm(in.tt.Resize(t, 32, false))}, nil).(Slice)
		return in.bytesToStr(r)
	}
	panic(unsupported("runeToStr"))
}

func (in *Interp) strToRunes(v Value) Value {
	var out []Value
	n := strLen(v)
	for i := 0; i < n; {
		b := strByte(v, i)
		ascii := false
		switch c := b.(type) {
		case uint64:
			ascii = c < 0x80
		case *Term:
			ascii = in.branch(in.tt.Cmp(OpUlt, c, in.tt.BV(0x80, 8)))
		}
		if ascii {
			out = append(out, in.convInt(b, 8, false, 32))
			i++
			continue
		}
		r, w := in.decodeRune(nil, strSlice(v, i, n))
		out = append(out, r)
		i += w
	}
	return in.mkSlice(out, 1)
}

// ---- growth of slices, as in runtime.growslice --------------------------------

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

var gcSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, newLen, esize int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = double
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if esize == 0 {
		return newcap
	}
	return roundup(newcap*esize) / esize
}

func (in *Interp) appendVals(s Slice, vals []Value, n int, et types.Type) Slice {
	if n == 0 {
		return s
	}
	es := s.es
	if s.len+n <= s.cap {
		in.beforeWrite(s.obj)
		copy(s.obj.slots[s.off+s.len*es:], vals)
		s.len += n
		return s
	}
	nc := growCap(s.cap, s.len+n, int(gcSizes.Sizeof(et)))
	o := in.newObj(0)
	o.slots = make([]Value, 0, nc*es)
	if s.obj != nil {
		o.slots = append(o.slots, s.obj.slots[s.off:s.off+s.len*es]...)
	}
	o.slots = append(o.slots, vals...)
	if es > 0 {
		z := make([]Value, 0, es)
		z = in.zeroInto(et, z)
		for len(o.slots) < nc*es {
			o.slots = append(o.slots, z...)
		}
	}
	return Slice{obj: o, len: s.len + n, cap: nc, es: es}
}

// ---- builtins ------------------------------------------------------------------

func (in *Interp) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, isDefer bool) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr, *LazyStr:
			return mkInt(strLen(x))
		case Slice:
			return mkInt(x.len)
		case *MapObj:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(x.live)
		case Agg:
			return uint64(c.Args[0].Type().Underlying().(*types.Array).Len())
		case Ptr:
			return uint64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkInt(x.cap)
		case Agg:
			return uint64(c.Args[0].Type().Underlying().(*types.Array).Len())
		case Ptr:
			return uint64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "append":
		s := args[0].(Slice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case string, *SymStr, *LazyStr:
			return in.appendVals(s, strBytes(y), strLen(y), et)
		case Slice:
			src := make([]Value, y.len*y.es)
			copy(src, in.sliceElems(y))
			return in.appendVals(s, src, y.len, et)
		}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case string, *SymStr, *LazyStr:
			n := strLen(y)
			if d.len < n {
				n = d.len
			}
			if n > 0 {
				in.beforeWrite(d.obj)
				copy(d.obj.slots[d.off:d.off+n], strBytes(y)[:n])
			}
			return mkInt(n)
		case Slice:
			n := y.len
			if d.len < n {
				n = d.len
			}
			if n > 0 {
				in.beforeWrite(d.obj)
				copy(d.obj.slots[d.off:d.off+n*d.es], y.obj.slots[y.off:y.off+n*y.es])
			}
			return mkInt(n)
		}
	case "delete":
		in.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				in.beforeMapWrite(x)
				for _, e := range x.ents {
					e.dead = true
				}
				x.live, x.symK = 0, 0
				x.idx = map[any]int{}
				x.ents = nil
			}
			return nil
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if x.len > 0 {
				in.beforeWrite(x.obj)
				for i := 0; i < x.len; i++ {
					z := in.zeroInto(et, nil)
					copy(x.obj.slots[x.off+i*x.es:], z)
				}
			}
			return nil
		}
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v})
	case "recover":
		// called by a deferred function: look at the frame that is running its defers
		f := fr.caller
		if f != nil && f.panik != nil {
			v := f.panik.v
			f.panik = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		acc := args[0]
		t := c.Args[0].Type()
		w, isInt := intWidth(t)
		for _, a := range args[1:] {
			ci := &cInstr{t: t, w: w, s: isSigned(t)}
			var less Value
			if b.Name() == "min" {
				less = in.binop(token.LSS, ci, a, acc, t)
			} else {
				less = in.binop(token.LSS, ci, acc, a, t)
			}
			switch l := less.(type) {
			case bool:
				if l {
					acc = a
				}
			case *Term:
				if !isInt {
					if in.branch(l) {
						acc = a
					}
				} else {
					acc = norm(in.tt.Ite(l, in.toTerm(a, w), in.toTerm(acc, w)))
				}
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			panic(in.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "String": // unsafe.String
		p, ok := args[0].(Ptr)
		n := int(in.intArg(args[1], 64, true))
		if n == 0 {
			return ""
		}
		if ok && p.obj != nil {
			b := make([]Value, n)
			copy(b, p.obj.slots[p.off:p.off+n])
			return mkStr(b)
		}
	case "StringData":
		b := strBytes(args[0])
		o := in.newObj(0)
		o.slots = append([]Value{}, b...)
		return Ptr{o, 0}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "Slice":
		p := args[0].(Ptr)
		n := int(in.intArg(args[1], 64, true))
		es := in.nslots(deref(c.Args[0].Type()))
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, es: es}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(flt(args[0]), flt(args[1]))
	}
	panic(unsupported("builtin " + b.Name()))
}

var _ = math.MaxInt64
