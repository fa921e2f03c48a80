package main

// Hash-consed SMT terms over Bool and bit-vectors, with constant folding.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpShl
	OpLshr
	OpAshr
	OpNeg
	OpBnot
	OpZext
	OpSext
	OpExtract // val = hi<<8|lo
	OpConcat
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpSdiv: "bvsdiv",
	OpUrem: "bvurem", OpSrem: "bvsrem", OpBand: "bvand", OpBor: "bvor", OpBxor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr",
	OpAshr: "bvashr", OpNeg: "bvneg", OpBnot: "bvnot", OpConcat: "concat"}

// Term is a node of the formula DAG. w==0 means Bool, otherwise a bit-vector of w bits.
type Term struct {
	op   Op
	w    uint8
	args [3]*Term
	n    uint8
	val  uint64
	name string
	id   int
	vars []int32 // sorted variable ids
	h1   uint64
	h2   uint64
	size int
	hard bool // holds a multiplication or division
}

type termKey struct {
	op         Op
	w          uint8
	a0, a1, a2 int
	val        uint64
	name       string
}

type TermTable struct {
	tab   map[termKey]*Term
	next  int
	vars  []*Term
	True  *Term
	False *Term
	aud   *auditor
}

// The constructors: a simplified term for each operation, noted for the audit.

func (tt *TermTable) Not(a *Term) *Term    { return tt.note(OpNot, 0, 0, tt.not0(a), a) }
func (tt *TermTable) And(a, b *Term) *Term { return tt.note(OpAnd, 0, 0, tt.and0(a, b), a, b) }
func (tt *TermTable) Or(a, b *Term) *Term  { return tt.note(OpOr, 0, 0, tt.or0(a, b), a, b) }
func (tt *TermTable) Ite(c, a, b *Term) *Term {
	return tt.note(OpIte, a.w, 0, tt.ite0(c, a, b), c, a, b)
}
func (tt *TermTable) Eq(a, b *Term) *Term         { return tt.note(OpEq, 0, 0, tt.eq0(a, b), a, b) }
func (tt *TermTable) Cmp(op Op, a, b *Term) *Term { return tt.note(op, 0, 0, tt.cmp0(op, a, b), a, b) }
func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	return tt.note(op, a.w, 0, tt.bin0(op, a, b), a, b)
}
func (tt *TermTable) Neg(a *Term) *Term  { return tt.note(OpNeg, a.w, 0, tt.neg0(a), a) }
func (tt *TermTable) Bnot(a *Term) *Term { return tt.note(OpBnot, a.w, 0, tt.bnot0(a), a) }

// Resize converts a to width w, extending with sign or zero.
func (tt *TermTable) Resize(a *Term, w uint8, signed bool) *Term {
	r := tt.resize0(a, w, signed)
	switch {
	case a.w == w:
		return r
	case w < a.w:
		return tt.note(OpExtract, w, uint64(w-1)<<8, r, a)
	case signed:
		return tt.note(OpSext, w, 0, r, a)
	}
	return tt.note(OpZext, w, 0, r, a)
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: map[termKey]*Term{}, aud: &auditor{seen: map[uint64]int{}}}
	tt.True = tt.mk(OpConst, 0, 1, "")
	tt.False = tt.mk(OpConst, 0, 0, "")
	return tt
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, a0: -1, a1: -1, a2: -1, val: val, name: name}
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		}
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: tt.next, n: uint8(len(args)), size: 1}
	tt.next++
	h1, h2 := mix(uint64(op)*31+uint64(w), val), mix(uint64(op)*1000003+uint64(w)*7, ^val)
	for i := 0; i < len(name); i++ {
		h1 = mix(h1, uint64(name[i]))
		h2 = mix(h2, uint64(name[i])*131)
	}
	for i, a := range args {
		t.args[i] = a
		h1 = mix(h1, a.h1)
		h2 = mix(h2, a.h2)
		t.size += a.size
		t.hard = t.hard || a.hard
	}
	t.hard = t.hard || op >= OpMul && op <= OpSrem
	t.h1, t.h2 = h1, h2
	if op == OpVar {
		t.val = 0
		t.vars = []int32{int32(len(tt.vars))}
		tt.vars = append(tt.vars, t)
	} else if len(args) == 1 {
		t.vars = args[0].vars
	} else if len(args) > 1 {
		vs := args[0].vars
		for _, a := range args[1:] {
			vs = unionVars(vs, a.vars)
		}
		t.vars = vs
	}
	tt.tab[k] = t
	return t
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTable) Var(name string, w uint8) *Term { return tt.mk(OpVar, w, 0, name) }
func (tt *TermTable) BV(v uint64, w uint8) *Term     { return tt.mk(OpConst, w, v&mask(w), "") }
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (tt *TermTable) not0(a *Term) *Term {
	switch {
	case a.op == OpConst:
		return tt.Bool(a.val == 0)
	case a.op == OpNot:
		return a.args[0]
	}
	return tt.mk(OpNot, 0, 0, "", a)
}

func (tt *TermTable) and0(a, b *Term) *Term {
	if a == tt.False || b == tt.False {
		return tt.False
	}
	if a == tt.True {
		return b
	}
	if b == tt.True || a == b {
		return a
	}
	if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
		return tt.False
	}
	return tt.mk(OpAnd, 0, 0, "", a, b)
}

func (tt *TermTable) or0(a, b *Term) *Term {
	if a == tt.True || b == tt.True {
		return tt.True
	}
	if a == tt.False {
		return b
	}
	if b == tt.False || a == b {
		return a
	}
	if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
		return tt.True
	}
	return tt.mk(OpOr, 0, 0, "", a, b)
}

func (tt *TermTable) ite0(c, a, b *Term) *Term {
	if c == tt.True {
		return a
	}
	if c == tt.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tt.True {
			return tt.Or(c, b)
		}
		if a == tt.False {
			return tt.And(tt.Not(c), b)
		}
		if b == tt.True {
			return tt.Or(tt.Not(c), a)
		}
		if b == tt.False {
			return tt.And(c, a)
		}
	}
	if c.op == OpNot {
		return tt.mk(OpIte, a.w, 0, "", c.args[0], b, a)
	}
	return tt.mk(OpIte, a.w, 0, "", c, a, b)
}

func (tt *TermTable) eq0(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b == tt.True {
			return a
		}
		if b == tt.False {
			return tt.Not(a)
		}
	}
	if a.op == OpConst {
		a, b = b, a
	}
	// b possibly const
	if b.op == OpConst {
		switch a.op {
		case OpZext:
			in := a.args[0]
			if b.val > mask(in.w) {
				return tt.False
			}
			return tt.Eq(in, tt.BV(b.val, in.w))
		case OpSext:
			in := a.args[0]
			if uint64(sext64(b.val&mask(in.w), in.w))&mask(a.w) != b.val {
				return tt.False
			}
			return tt.Eq(in, tt.BV(b.val, in.w))
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.op == OpConst || y.op == OpConst {
				return tt.Ite(a.args[0], tt.Eq(x, b), tt.Eq(y, b))
			}
		case OpAdd:
			if a.args[1].op == OpConst {
				return tt.Eq(a.args[0], tt.BV(b.val-a.args[1].val, a.w))
			}
		case OpBxor:
			if a.args[1].op == OpConst {
				return tt.Eq(a.args[0], tt.BV(b.val^a.args[1].val, a.w))
			}
		}
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return tt.Eq(a.args[0], b.args[0])
	}
	if a.op == OpSext && b.op == OpSext && a.args[0].w == b.args[0].w {
		return tt.Eq(a.args[0], b.args[0])
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, "", a, b)
}

func (tt *TermTable) cmp0(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpUlt:
			return tt.Bool(a.val < b.val)
		case OpUle:
			return tt.Bool(a.val <= b.val)
		case OpSlt:
			return tt.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
		case OpSle:
			return tt.Bool(sext64(a.val, a.w) <= sext64(b.val, b.w))
		}
	}
	if a == b {
		return tt.Bool(op == OpUle || op == OpSle)
	}
	// zero-extended operand against a constant: reduce to the narrow width
	if a.op == OpZext && b.op == OpConst {
		in := a.args[0]
		m := mask(in.w)
		neg := (op == OpSlt || op == OpSle) && sext64(b.val, b.w) < 0
		switch {
		case neg:
			return tt.False
		case b.val > m:
			return tt.True
		case op == OpUlt || op == OpSlt:
			return tt.Cmp(OpUlt, in, tt.BV(b.val, in.w))
		default:
			return tt.Cmp(OpUle, in, tt.BV(b.val, in.w))
		}
	}
	if b.op == OpZext && a.op == OpConst {
		in := b.args[0]
		m := mask(in.w)
		neg := (op == OpSlt || op == OpSle) && sext64(a.val, a.w) < 0
		switch {
		case neg:
			return tt.True
		case a.val > m:
			return tt.False
		case op == OpUlt || op == OpSlt:
			return tt.Cmp(OpUlt, tt.BV(a.val, in.w), in)
		default:
			return tt.Cmp(OpUle, tt.BV(a.val, in.w), in)
		}
	}
	if op == OpUlt && b.op == OpConst && b.val == 0 {
		return tt.False
	}
	if op == OpUle && a.op == OpConst && a.val == 0 {
		return tt.True
	}
	if op == OpUle && b.op == OpConst && b.val == mask(b.w) {
		return tt.True
	}
	return tt.mk(op, 0, 0, "", a, b)
}

func (tt *TermTable) bin0(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		x, y := a.val, b.val
		var r uint64
		switch op {
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUdiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OpUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSdiv:
			if y == 0 {
				goto slow
			}
			if sext64(y, w) == -1 {
				r = -x
			} else {
				r = uint64(sext64(x, w) / sext64(y, w))
			}
		case OpSrem:
			if y == 0 {
				goto slow
			}
			if sext64(y, w) == -1 {
				r = 0
			} else {
				r = uint64(sext64(x, w) % sext64(y, w))
			}
		case OpBand:
			r = x & y
		case OpBor:
			r = x | y
		case OpBxor:
			r = x ^ y
		case OpShl:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x << y
			}
		case OpLshr:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x >> y
			}
		case OpAshr:
			s := y
			if s >= uint64(w) {
				s = uint64(w) - 1
			}
			r = uint64(sext64(x, w) >> s)
		}
		return tt.BV(r, w)
	}
slow:
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return tt.Bin(OpAdd, a.args[0], tt.BV(a.args[1].val+b.val, w))
			}
		}
	case OpSub:
		if b.op == OpConst {
			return tt.Bin(OpAdd, a, tt.BV(-b.val, w))
		}
		if a == b {
			return tt.BV(0, w)
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpBand:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBor, OpBxor:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.val == 0 {
			return a
		}
		if a == b {
			if op == OpBor {
				return a
			}
			return tt.BV(0, w)
		}
	case OpShl, OpLshr, OpAshr:
		if b.op == OpConst && b.val == 0 {
			return a
		}
		if b.op == OpConst && b.val >= uint64(w) && op != OpAshr {
			return tt.BV(0, w)
		}
	case OpUdiv:
		if b.op == OpConst && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return tt.Bin(OpLshr, a, tt.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OpUrem:
		if b.op == OpConst && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return tt.Bin(OpBand, a, tt.BV(b.val-1, w))
		}
	}
	// distribute over constant-armed ite to keep table lookups small
	return tt.mk(op, w, 0, "", a, b)
}

func (tt *TermTable) neg0(a *Term) *Term {
	if a.op == OpConst {
		return tt.BV(-a.val, a.w)
	}
	return tt.mk(OpNeg, a.w, 0, "", a)
}
func (tt *TermTable) bnot0(a *Term) *Term {
	if a.op == OpConst {
		return tt.BV(^a.val, a.w)
	}
	return tt.mk(OpBnot, a.w, 0, "", a)
}

func (tt *TermTable) resize0(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.op == OpConst:
		if w > a.w && signed {
			return tt.BV(uint64(sext64(a.val, a.w)), w)
		}
		return tt.BV(a.val, w)
	case w < a.w:
		switch a.op {
		case OpZext, OpSext:
			in := a.args[0]
			if in.w >= w {
				return tt.Resize(in, w, false)
			}
			return tt.Resize(in, w, a.op == OpSext)
		case OpIte:
			if a.args[1].op == OpConst || a.args[2].op == OpConst {
				return tt.Ite(a.args[0], tt.Resize(a.args[1], w, signed), tt.Resize(a.args[2], w, signed))
			}
		case OpBand, OpBor, OpBxor, OpAdd:
			if a.args[1].op == OpConst {
				return tt.Bin(a.op, tt.Resize(a.args[0], w, false), tt.Resize(a.args[1], w, false))
			}
		}
		return tt.mk(OpExtract, w, uint64(w-1)<<8, "", a)
	default:
		if a.op == OpZext {
			return tt.Resize(a.args[0], w, false)
		}
		if a.op == OpSext && signed {
			return tt.Resize(a.args[0], w, true)
		}
		if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
			return tt.Ite(a.args[0], tt.Resize(a.args[1], w, signed), tt.Resize(a.args[2], w, signed))
		}
		if signed {
			return tt.mk(OpSext, w, 0, "", a)
		}
		return tt.mk(OpZext, w, 0, "", a)
	}
}

// eval evaluates t under a model (variable id -> value; missing = 0).
func evalTerm(t *Term, m map[int32]uint64, memo map[*Term]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.op == OpVar {
		return m[t.vars[0]] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return evalTerm(t.args[i], m, memo) }
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - ev(0)
	case OpAnd:
		r = ev(0)
		if r == 1 {
			r = ev(1)
		}
	case OpOr:
		r = ev(0)
		if r == 0 {
			r = ev(1)
		}
	case OpIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OpEq:
		r = b2(ev(0) == ev(1))
	case OpUlt:
		r = b2(ev(0) < ev(1))
	case OpUle:
		r = b2(ev(0) <= ev(1))
	case OpSlt:
		w := t.args[0].w
		r = b2(sext64(ev(0), w) < sext64(ev(1), w))
	case OpSle:
		w := t.args[0].w
		r = b2(sext64(ev(0), w) <= sext64(ev(1), w))
	case OpNeg:
		r = -ev(0)
	case OpBnot:
		r = ^ev(0)
	case OpZext:
		r = ev(0)
	case OpSext:
		r = uint64(sext64(ev(0), t.args[0].w))
	case OpExtract:
		lo := t.val & 0xff
		r = ev(0) >> lo
	default:
		x, y := ev(0), ev(1)
		w := t.w
		switch t.op {
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUdiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OpUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSdiv:
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == 0 {
				if sx < 0 {
					r = 1
				} else {
					r = mask(w)
				}
			} else if sy == -1 {
				r = -x
			} else {
				r = uint64(sx / sy)
			}
		case OpSrem:
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx % sy)
			}
		case OpBand:
			r = x & y
		case OpBor:
			r = x | y
		case OpBxor:
			r = x ^ y
		case OpShl:
			if y < uint64(w) {
				r = x << y
			}
		case OpLshr:
			if y < uint64(w) {
				r = x >> y
			}
		case OpAshr:
			s := y
			if s >= uint64(w) {
				s = uint64(w) - 1
			}
			r = uint64(sext64(x, w) >> s)
		}
	}
	r &= maskB(t.w)
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quoteSym(s string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
}

// leaf or reference text of a term
func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return quoteSym(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints one node in terms of references to its children.
func (t *Term) body() string {
	switch t.op {
	case OpConst, OpVar:
		return t.ref()
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.args[0].ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.args[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func sortInt32(s []int32) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }
