package main

// Exact value sets of single-byte conditions. A branch condition over one symbolic byte (or boolean) is tabulated over
// all 256 values; the conjunction of those on the path decides most feasibility questions without the solver process.
// Assertions are always sent to the solver.

import "sync/atomic"

type byteSet [4]uint64

func (s byteSet) and(t byteSet) byteSet {
	return byteSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s byteSet) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s byteSet) has(v uint64) bool {
	return v < 256 && s[v>>6]>>(v&63)&1 == 1
}
func (s byteSet) first() uint64 {
	for v := uint64(0); v < 256; v++ {
		if s.has(v) {
			return v
		}
	}
	return 0
}

var fullSet = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

var tabulated atomic.Int64

type vec [256]uint64

type domains struct {
	sets   map[*Term]byteSet
	vecs   map[*Term]*vec
	ranges map[*Term]rng
}

// small tells whether t is a condition over exactly one variable of at most 8 bits.
func (in *Interp) small(t *Term) bool {
	return t.w == 0 && len(t.vars) == 1 && in.tt.vars[t.vars[0]].w <= 8
}

func (in *Interp) setOf(t *Term) byteSet {
	d := &in.dom
	if d.sets == nil {
		d.sets = map[*Term]byteSet{}
	}
	if s, ok := d.sets[t]; ok {
		return s
	}
	if d.vecs == nil || len(d.vecs) > 4000 {
		d.vecs = map[*Term]*vec{}
	}
	v := in.vecOf(t)
	var s byteSet
	n := uint64(256)
	if w := in.tt.vars[t.vars[0]].w; w < 8 {
		n = 1 << w
		if w == 0 {
			n = 2
		}
	}
	for i := uint64(0); i < n; i++ {
		if v[i] == 1 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	if len(d.sets) > 200000 {
		d.sets = map[*Term]byteSet{}
	}
	d.sets[t] = s
	return s
}

func (in *Interp) vecOf(t *Term) *vec {
	if v, ok := in.dom.vecs[t]; ok {
		return v
	}
	out := new(vec)
	switch t.op {
	case OpConst:
		for i := range out {
			out[i] = t.val
		}
	case OpVar:
		for i := range out {
			out[i] = uint64(i) & maskB(t.w)
		}
	default:
		var a [3]*vec
		for i := 0; i < int(t.n); i++ {
			a[i] = in.vecOf(t.args[i])
		}
		switch t.op {
		case OpNot:
			for i := range out {
				out[i] = 1 - a[0][i]
			}
		case OpAnd:
			for i := range out {
				out[i] = a[0][i] & a[1][i]
			}
		case OpOr:
			for i := range out {
				out[i] = a[0][i] | a[1][i]
			}
		case OpIte:
			for i := range out {
				if a[0][i] == 1 {
					out[i] = a[1][i]
				} else {
					out[i] = a[2][i]
				}
			}
		case OpEq:
			for i := range out {
				if a[0][i] == a[1][i] {
					out[i] = 1
				}
			}
		default:
			// one node at a time through the general evaluator
			var cells [3]Term
			node := *t
			for k := 0; k < int(t.n); k++ {
				cells[k] = Term{op: OpConst, w: t.args[k].w}
				node.args[k] = &cells[k]
			}
			memo := map[*Term]uint64{}
			for i := range out {
				for k := 0; k < int(t.n); k++ {
					cells[k].val = a[k][i]
				}
				clear(memo)
				out[i] = evalTerm(&node, nil, memo)
			}
		}
	}
	in.dom.vecs[t] = out
	return out
}

func (in *Interp) domOf(v int32) byteSet {
	if s, ok := in.p.dom[v]; ok {
		return s
	}
	return fullSet
}

// refuted: t contradicts the value sets of the path.
func (in *Interp) refuted(t *Term) bool {
	if in.small(t) {
		return in.setOf(t).and(in.domOf(t.vars[0])).empty()
	}
	if in.dom.ranges == nil {
		in.dom.ranges = map[*Term]rng{}
	}
	clear(in.dom.ranges)
	return in.rangeOf(t).hi == 0
}

// rng is an unsigned interval that contains every value of a term on the path; of a condition, {0,0} or {1,1} decide it.
type rng struct{ lo, hi uint64 }

func (in *Interp) rangeOf(t *Term) rng {
	if t.op == OpConst {
		return rng{t.val, t.val}
	}
	if r, ok := in.dom.ranges[t]; ok {
		return r
	}
	r := in.rangeOf1(t)
	in.dom.ranges[t] = r
	return r
}

func bitCeil(x uint64) uint64 {
	for i := uint(1); i < 64; i <<= 1 {
		x |= x >> i
	}
	return x
}

func (in *Interp) rangeOf1(t *Term) rng {
	top := rng{0, maskB(t.w)}
	if len(t.vars) == 1 && in.tt.vars[t.vars[0]].w <= 8 {
		d := in.domOf(t.vars[0])
		if d != fullSet || t.w != in.tt.vars[t.vars[0]].w {
			if in.dom.vecs == nil || len(in.dom.vecs) > 4000 {
				in.dom.vecs = map[*Term]*vec{}
			}
			v := in.vecOf(t)
			r := rng{^uint64(0), 0}
			for i := uint64(0); i < 256; i++ {
				if d.has(i) {
					r.lo, r.hi = min(r.lo, v[i]), max(r.hi, v[i])
				}
			}
			if r.lo <= r.hi {
				return r
			}
		}
		return top
	}
	arg := func(i int) rng { return in.rangeOf(t.args[i]) }
	tri := func(yes, no bool) rng {
		switch {
		case yes:
			return rng{1, 1}
		case no:
			return rng{0, 0}
		}
		return rng{0, 1}
	}
	switch t.op {
	case OpNot:
		a := arg(0)
		return rng{1 - a.hi, 1 - a.lo}
	case OpAnd:
		a := arg(0)
		if a.hi == 0 {
			return a
		}
		b := arg(1)
		return rng{a.lo & b.lo, a.hi & b.hi}
	case OpOr:
		a := arg(0)
		if a.lo == 1 {
			return a
		}
		b := arg(1)
		return rng{a.lo | b.lo, a.hi | b.hi}
	case OpIte:
		c := arg(0)
		if c.lo == 1 {
			return arg(1)
		}
		if c.hi == 0 {
			return arg(2)
		}
		a, b := arg(1), arg(2)
		return rng{min(a.lo, b.lo), max(a.hi, b.hi)}
	case OpEq:
		a, b := arg(0), arg(1)
		return tri(a.lo == a.hi && b.lo == b.hi && a.lo == b.lo, a.hi < b.lo || b.hi < a.lo)
	case OpUlt:
		a, b := arg(0), arg(1)
		return tri(a.hi < b.lo, a.lo >= b.hi)
	case OpUle:
		a, b := arg(0), arg(1)
		return tri(a.hi <= b.lo, a.lo > b.hi)
	case OpSlt, OpSle:
		a, b := arg(0), arg(1)
		if h := uint64(1) << (t.args[0].w - 1); a.hi >= h || b.hi >= h {
			return top
		}
		if t.op == OpSlt {
			return tri(a.hi < b.lo, a.lo >= b.hi)
		}
		return tri(a.hi <= b.lo, a.lo > b.hi)
	case OpZext:
		return arg(0)
	case OpAdd:
		a, b := arg(0), arg(1)
		if hi := a.hi + b.hi; hi >= a.hi && hi <= mask(t.w) {
			return rng{a.lo + b.lo, hi}
		}
	case OpBor:
		a, b := arg(0), arg(1)
		return rng{max(a.lo, b.lo), bitCeil(a.hi | b.hi)}
	case OpBand:
		a, b := arg(0), arg(1)
		return rng{0, min(a.hi, b.hi)}
	case OpShl:
		a, b := arg(0), arg(1)
		if b.lo == b.hi && b.lo < 64 && a.hi<<b.lo>>b.lo == a.hi && a.hi<<b.lo <= mask(t.w) {
			return rng{a.lo << b.lo, a.hi << b.lo}
		}
	case OpLshr:
		a, b := arg(0), arg(1)
		if b.lo == b.hi && b.lo < 64 {
			return rng{a.lo >> b.lo, a.hi >> b.lo}
		}
	}
	return top
}

// tabulate decides PC and t from value sets alone when it can.
func (in *Interp) tabulate(t *Term) (r Result, m map[int32]uint64, ok bool) {
	if in.refuted(t) {
		tabulated.Add(1)
		in.noteDomain(t)
		return Unsat, nil, true
	}
	if !in.small(t) || in.p.multi[t.vars[0]] {
		return Unknown, nil, false
	}
	id := t.vars[0]
	s := in.setOf(t).and(in.domOf(id))
	full := make(map[int32]uint64, len(in.p.model)+1)
	for k, v := range in.p.model {
		full[k] = v
	}
	full[id] = s.first()
	tabulated.Add(1)
	return Sat, full, true
}

// narrow records a conjunct of the path condition.
func (in *Interp) narrow(t *Term) {
	p := in.p
	if in.small(t) {
		if p.dom == nil {
			p.dom = map[int32]byteSet{}
		}
		p.dom[t.vars[0]] = in.domOf(t.vars[0]).and(in.setOf(t))
		return
	}
	if p.multi == nil {
		p.multi = map[int32]bool{}
	}
	for _, v := range t.vars {
		p.multi[v] = true
	}
}
