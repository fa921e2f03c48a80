package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/types"
)

// renderOne makes one of the rendering calls and says whether it matches o.
func renderOne(b builder.Builder, how int, o Out) bool {
	switch how {
	case 0:
		q, a := b.Query()
		return q == o.Text && SameArgs(a, o.Args)
	case 1:
		q, a := b.NamedQuery()
		if q != o.NText || len(a) != len(o.Args) {
			return false
		}
		for i := range o.Args {
			if !SameArgs([]any_{a[named(i)[1:]]}, o.Args[i:i+1]) {
				return false
			}
		}
		return true
	case 2:
		return b.String() == o.Debug
	}
	ctx := &types.StdContext{}
	b.Statement().Write(ctx)
	return ctx.Query() == o.Text && SameArgs(ctx.Values(), o.Args)
}

func renderAll(b builder.Builder) {
	for i := 0; i < 4; i++ {
		renderOne(b, i, Out{})
	}
}

// pure states that rendering b writes nothing and repeats itself.
func pure(name string, b builder.Builder, hows ...int) {
	g := sym.FreezeAll(b)
	o := Render(b)
	sym.Observe("query", o.Text)
	sym.Assert(!sym.Touched(g), "C06 rendering writes to nothing reachable before the call: "+name)
	if !o.OK {
		sym.Assert(SameOut(Render(b), o), "C06 a refused rendering stays refused: "+name)
		return
	}
	sym.Parallel(func() { renderAll(b) })
	for _, h := range hows {
		sym.Assert(renderOne(b, h, o), "C06 every rendering returns the same: "+name)
	}
	sym.Assert(!sym.Touched(g), "C06 rendering again writes to nothing reachable before the call: "+name)
	// what was returned belongs to the caller
	_, a := b.Query()
	_, n := b.NamedQuery()
	for i := range a {
		a[i] = "clobbered"
		n[named(i)[1:]] = "clobbered"
	}
	if n != nil {
		n["arg_0"] = "added"
	}
	sym.Assert(SameOut(Render(b), o), "C06 changing what a rendering returned does not change the next one: "+name)
}

// Every set of clauses of every kind.
func C06_clauses() {
	k := Kind(sym.Choose("kind", 4))
	sym.MapOrder(1)
	b, _, _ := NearSubset(k, sym.Bound(3, 15), plainValues)
	pure("clauses", b, 3, 2, 1, 0)
}

// Every place, values of several kinds, any sequence of three calls.
func C06_sequences() {
	sym.MapOrder(sym.Choose("map order", 2) + 1)
	p := AnyPlace()
	v := make([]any_, ref.Marks(p.Tmpl))
	given := []any_{"it's", []byte{1, 2}, someTime, []string{"a"}, map[string]interface{}{"b": 1, "a": "x"}, nil, valuer{"x"}}[sym.Choose("kind", sym.Bound(2, 7))]
	for i := range v {
		v[i] = i
		if i == 0 {
			v[i] = given
		}
	}
	b := p.Build(v)
	pure(p.Name, b, sym.Choose("call", 4), sym.Choose("call", 4), sym.Choose("call", 4))
}

// Builders with several unsorted SET columns, whatever order the maps iterate in.
func C06_set() {
	m := lk.Map{"c": 1, "a": 2, "b": 3}
	var b builder.Builder
	switch sym.Choose("form", 5) {
	case 0:
		b = lk.Update("t").Set(m)
	case 1:
		b = lk.Update("t").Set(lk.Pair("z", 1), lk.Pair("b", 2)).Set(lk.Map{"c": 3, "a": 4})
	case 2:
		b = lk.Insert("t").Set(m)
	case 3:
		b = lk.Insert("t").Set(lk.Pair("z", 1), lk.Pair("a", 1)).OnConflict("a", lk.DoUpdate(m))
	case 4:
		b = lk.Update("t").Set("c", "a", "b").Using(1, 2, 3).Returning("x")
	}
	pure("SET", b, 0, 1, 2, 3)
}

// Two builders derived from one, rendered side by side: neither writes what the other reads.
func C06_derived() {
	sym.MapOrder(1)
	k := Kind(sym.Choose("kind", 4))
	ms, _ := methodsOf(k)
	base := startOf(k, sym.Choose("start", 2))
	d := call(ms[sym.Choose("method", len(ms))], base, "one", 5)
	e := call(ms[sym.Choose("other", len(ms))], base, "other", 6)
	if d == nil || e == nil {
		return
	}
	g := sym.FreezeAll(base, d, e)
	r := take(e)
	sym.Parallel(func() { take(d); take(e); take(base) })
	take(d)
	take(base)
	sym.Assert(!sym.Touched(g), "C06 rendering a derived builder writes to nothing reachable before the call")
	sym.Assert(take(e).same(r), "C06 rendering a sibling changes nothing")
}

// Any two clauses, each in any of its forms.
func C06_forms() {
	sym.MapOrder(1)
	b, name := someForms([]any_{42, "it's"})
	pure(name, b, 2, 0)
}
