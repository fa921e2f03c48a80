package main

import "math"

// Strings of any length up to a bound. Neither the length nor the bytes of a LazyStr are fixed until the code under
// test looks at them: as long as it only carries the string around, one path stands for all of them. The first
// operation that depends on the length splits the path over the lengths that are left.

type LazyStr struct {
	in   *Interp
	name string
	id   int
	lens []int
	val  Value // once split
	recs []inputRec
}

func (l *LazyStr) fix(n int) Value {
	in := l.in
	b := make([]Value, n)
	for i := range b {
		t := in.newVar(l.name+"@"+itoa(l.id), "", 8)
		b[i] = t
		l.recs = append(l.recs, inputRec{Name: l.name, Kind: "byte", val: t})
	}
	l.lens = []int{n}
	l.val = mkStr(b)
	return l.val
}

func (l *LazyStr) force() Value {
	if l.val == nil {
		l.fix(l.lens[l.in.choose(len(l.lens))])
	}
	return l.val
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// fstr returns a string whose length is known.
func fstr(v Value) Value {
	if l, ok := v.(*LazyStr); ok {
		return l.force()
	}
	return v
}

// narrow decides whether the length is n, without splitting any further if it is not.
func (l *LazyStr) narrow(n int) bool {
	if l.val != nil {
		return strLen(l.val) == n
	}
	at := -1
	for i, x := range l.lens {
		if x == n {
			at = i
		}
	}
	if at < 0 {
		return false
	}
	if len(l.lens) > 1 && l.in.choose(2) == 0 {
		rest := make([]int, 0, len(l.lens)-1)
		rest = append(rest, l.lens[:at]...)
		l.lens = append(rest, l.lens[at+1:]...)
		return false
	}
	l.fix(n)
	return true
}

// inputs lists the recorded inputs with every LazyStr replaced by its length and bytes.
func (in *Interp) inputs() []inputRec {
	out := make([]inputRec, 0, len(in.p.inputs))
	for _, r := range in.p.inputs {
		if f, ok := r.val.(*LazyFloat); ok {
			r.val = math.Float64bits(f.left[0])
		}
		l, ok := r.val.(*LazyStr)
		if !ok {
			out = append(out, r)
			continue
		}
		out = append(out, inputRec{Name: l.name, Kind: "len", val: uint64(l.lens[0])})
		out = append(out, l.recs...)
		if l.val == nil {
			for i := 0; i < l.lens[0]; i++ {
				out = append(out, inputRec{Name: l.name, Kind: "byte", val: uint64('a' + i%26)})
			}
		}
	}
	return out
}
