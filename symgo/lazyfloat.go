package main

import (
	"go/token"
	"math"
)

// Floating point values that are not fixed until the code under test looks at them. A comparison with a constant
// splits the values left by its outcome; anything else that depends on the value splits them one by one. The values
// left are representatives: the special values, values around every constant compared with, and some of each shape.
type LazyFloat struct {
	in    *Interp
	name  string
	small bool // float32
	left  []float64
}

func floatCands(small bool) []float64 {
	c := []float64{1.5, 0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1, -1, 2, 100, -7.25, 123456.75, 1 << 24, 1e-7, 1e21}
	if small {
		for i := range c {
			c[i] = float64(float32(c[i]))
		}
		return append(c, float64(float32(0.1)), math.MaxFloat32, math.SmallestNonzeroFloat32, float64(float32(1e30)))
	}
	return append(c, 0.1, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53+2)
}

func (l *LazyFloat) force() float64 {
	if len(l.left) > 1 {
		l.left = []float64{l.left[l.in.choose(len(l.left))]}
	}
	return l.left[0]
}

// split narrows the values left to those with one outcome of f.
func (l *LazyFloat) split(f func(x float64) bool) bool {
	var yes, no []float64
	for _, x := range l.left {
		if f(x) {
			yes = append(yes, x)
		} else {
			no = append(no, x)
		}
	}
	if len(no) == 0 {
		return true
	}
	if len(yes) != 0 && l.in.choose(2) == 1 {
		l.left = yes
		return true
	}
	l.left = no
	return false
}

func (l *LazyFloat) around(c float64) {
	if len(l.left) == 1 || math.IsNaN(c) {
		return
	}
	extra := []float64{c, math.Nextafter(c, math.Inf(1)), math.Nextafter(c, math.Inf(-1))}
	if l.small {
		f := float32(c)
		extra = []float64{float64(f), float64(math.Nextafter32(f, float32(math.Inf(1)))), float64(math.Nextafter32(f, float32(math.Inf(-1))))}
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	nan := false
	for _, x := range l.left {
		if math.IsNaN(x) {
			nan = true
			continue
		}
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	_ = nan
	for _, x := range extra {
		if x < lo || x > hi {
			continue // left by an earlier comparison
		}
		dup := false
		for _, y := range l.left {
			dup = dup || math.Float64bits(x) == math.Float64bits(y)
		}
		if !dup {
			l.left = append(append([]float64{}, l.left...), x)
		}
	}
}

func cmpFloat(op token.Token, x, y float64) bool {
	switch op {
	case token.EQL:
		return x == y
	case token.NEQ:
		return x != y
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	}
	return x >= y
}

func flt(v Value) float64 {
	if l, ok := v.(*LazyFloat); ok {
		return l.force()
	}
	return v.(float64)
}

// cmpFloats compares values of which one at least is lazy.
func (in *Interp) cmpFloats(op token.Token, a, b Value) Value {
	l, ok1 := a.(*LazyFloat)
	m, ok2 := b.(*LazyFloat)
	switch {
	case ok1 && ok2 && l == m:
		return l.split(func(x float64) bool { return cmpFloat(op, x, x) })
	case ok1 && ok2:
		y := m.force()
		l.around(y)
		return l.split(func(x float64) bool { return cmpFloat(op, x, y) })
	case ok1:
		y := b.(float64)
		l.around(y)
		return l.split(func(x float64) bool { return cmpFloat(op, x, y) })
	}
	x := a.(float64)
	m.around(x)
	return m.split(func(y float64) bool { return cmpFloat(op, x, y) })
}

func (in *Interp) newFloat(name string, small bool) Value {
	if in.specStart != 0 {
		panic(specAbort{"new input"})
	}
	l := &LazyFloat{in: in, name: name, small: small, left: floatCands(small)}
	in.p.inputs = append(in.p.inputs, inputRec{Name: name, Kind: "float64", val: l})
	return l
}
