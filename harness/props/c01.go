package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
)

func checkText(p Place, given []any_) {
	b := p.Build(given)
	q, _ := b.Query()
	nq, _ := b.NamedQuery()
	sym.Observe("query", q)
	want := ref.Fill(p.Tmpl, dollar)
	wantN := ref.Fill(p.Tmpl, named)
	sym.Assert(ref.SameSQL(q, want), "C01 the text of Query() holds nothing but a placeholder for each value: "+p.Name)
	sym.Assert(ref.SameSQL(nq, wantN), "C01 the text of NamedQuery() holds nothing but a placeholder for each value: "+p.Name)
}

// Every place, one kind of value at a time, contents arbitrary.
func C01_places() {
	p := AnyPlace()
	k := sym.Choose("kind", nKinds)
	n := ref.Marks(p.Tmpl)
	given := make([]any_, n)
	for i := range given {
		given[i], _ = OpaqueValue("v", k)
	}
	sym.Cover(kindNames[k])
	checkText(p, given)
}

// Conditions in the other statement kinds, string contents.
func C01_statements() {
	cs := conds()
	c := cs[sym.Choose("cond", len(cs))]
	p := PlaceFor(c, 1+sym.Choose("statement", 3))
	given := make([]any_, ref.Marks(p.Tmpl))
	for i := range given {
		given[i], _ = OpaqueValue("v", 0)
	}
	checkText(p, given)
}

// Two builders that differ only in the contents of string values of any length.
func C01_two() {
	ps := places()
	p := ps[sym.Choose("place", len(ps))]
	n := ref.Marks(p.Tmpl)
	a, b := make([]any_, n), make([]any_, n)
	m := sym.Bound(24, 64)
	for i := 0; i < n; i++ {
		a[i], b[i] = sym.Text("a", 0, m), sym.Text("b", 0, m)
	}
	qa, _ := p.Build(a).Query()
	qb, _ := p.Build(b).Query()
	sym.Assert(qa == qb, "C01 two builders that differ only in values have the same text: "+p.Name)
	na, _ := p.Build(a).NamedQuery()
	nb, _ := p.Build(b).NamedQuery()
	sym.Assert(na == nb, "C01 two builders that differ only in values have the same named text: "+p.Name)
}

// Long texts, with arbitrary bytes at both ends: placeholders too.
func C01_long_text() {
	p := AnyPlace()
	n := ref.Marks(p.Tmpl)
	m := []int{255, 8191, 65536, 63, 1023, 4096, 32768, 1 << 20}[sym.Choose("length", sym.Bound(3, 8))]
	s := sym.Str("head", 1) + strings.Repeat("x", m) + sym.Str("tail", 1)
	given := make([]any_, n)
	for i := range given {
		given[i] = any_(s)
		if i == n-1 && n > 1 {
			given[i] = []byte(s)
		}
	}
	checkText(p, given)
}

// Long lists: whatever the number of values, each of them is a placeholder.
func C01_long() {
	n := longSizes[sym.Choose("size", sym.Bound(6, 9))]
	form := sym.Choose("form", nLongForms)
	given := make([]any_, n)
	k := []int{0, 6, 17, 15}[sym.Choose("kind", 4)]
	for i := range given {
		given[i], _ = OpaqueValue("v", k)
	}
	checkText(longPlace(form, n), given)
}

var longSizes = []int{5, 9, 17, 33, 101, 257, 70, 130, 300}

// longSlices has n values in a typed slice: the condition, its template and the values.
func longSlices(form, n int) (stmt.Expression, string, []any_) {
	a := lk.Condition("a")
	in, not := `("a" IN (?`+repeat(", ?", n-1)+"))", `("a" NOT IN (?`+repeat(", ?", n-1)+"))"
	vs := make([]any_, n)
	switch form {
	case 0, 1:
		xs := make([]string, n)
		for i := range xs {
			xs[i] = sym.Text("s", 0, 24)
			vs[i] = xs[i]
		}
		if form == 0 {
			return a.In(xs), in, vs
		}
		return a.NotIn(xs), not, vs
	case 2, 3:
		xs := make([]int64, n)
		for i := range xs {
			xs[i] = sym.Int64("n")
			vs[i] = xs[i]
		}
		if form == 2 {
			return a.In(xs), in, vs
		}
		return a.NotIn(xs), not, vs
	case 4:
		xs := make([]int, n)
		for i := range xs {
			xs[i] = sym.Int("n")
			vs[i] = xs[i]
		}
		return a.In(xs), in, vs
	case 5:
		xs := make([]uint32, n)
		for i := range xs {
			xs[i] = sym.Uint32("n")
			vs[i] = xs[i]
		}
		return a.In(xs), in, vs
	case 6:
		xs := make([]bool, n)
		for i := range xs {
			xs[i] = sym.Bool("b")
			vs[i] = xs[i]
		}
		return a.NotIn(xs), not, vs
	case 7:
		for i := range vs {
			vs[i] = sym.Text("s", 0, 24)
		}
		return a.In(vs), in, vs
	}
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = sym.Float64("f")
		vs[i] = xs[i]
	}
	return a.In(xs), in, vs
}

const nLongSlices = 9

// The same with slices of each type.
func C01_slices() {
	n := longSizes[sym.Choose("size", sym.Bound(5, 8))]
	c, tmpl, _ := longSlices(sym.Choose("form", nLongSlices), n)
	q, _ := lk.Select("x").From("t").Where(c).Query()
	sym.Assert(ref.SameSQL(q, ref.Fill(`SELECT "x" FROM "t" WHERE `+tmpl, dollar)), "C01 long slices hold nothing but placeholders")
	nq, _ := lk.Delete("t").Where(c).NamedQuery()
	sym.Assert(ref.SameSQL(nq, ref.Fill(`DELETE FROM "t" WHERE `+tmpl, named)), "C01 long slices hold nothing but placeholders (named)")
}
