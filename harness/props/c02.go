package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// markFill fills a template when some values are nil: NULL for those, consecutive placeholders for the others.
func markFill(nils []bool, prefix string) func(k int) string {
	n := 0
	return func(k int) string {
		if nils[k] {
			return "NULL"
		}
		n++
		return prefix + ref.Itoa(n)
	}
}

func checkPlaceholders(name, tmpl string, b builder.Builder, nils []bool, want []any_) {
	q, args := b.Query()
	nq, nargs := b.NamedQuery()
	sym.Observe("query", q)
	sym.Assert(ref.SameSQL(q, ref.Fill(tmpl, markFill(nils, "$"))), "C02 placeholders $1..$n in order of appearance: "+name)
	sym.Assert(ref.SameSQL(nq, ref.Fill(tmpl, markFill(nils, ":arg_"))), "C02 placeholders :arg_1..:arg_n in order of appearance: "+name)
	var bound []any_
	for i := range want {
		if !nils[i] {
			bound = append(bound, want[i])
		}
	}
	sym.Assert(SameArgs(args, bound), "C02 argument i is the value written at $i: "+name)
	sym.Assert(len(nargs) == len(bound), "C02 one named argument per placeholder: "+name)
	for i := range bound {
		v, ok := nargs["arg_"+ref.Itoa(i+1)]
		sym.Assert(ok, "C02 the named arguments are arg_1..arg_n: "+name)
		sym.Assert(SameArgs([]any_{v}, []any_{bound[i]}), "C02 named argument i is the value written at :arg_i: "+name)
	}
}

// nilable tells whether a nil at that position is a bound value rather than another form of the clause.
func values(p Place) (given []any_, nils []bool) {
	n := ref.Marks(p.Tmpl)
	given, nils = make([]any_, n), make([]bool, n)
	for i := range given {
		if sym.Choose("nil", 2) == 1 {
			nils[i] = true
			continue
		}
		given[i] = sym.Int64("v")
	}
	return
}

// Every place of every statement, values arbitrary, each of them possibly nil.
func C02_places() {
	p := AnyPlace()
	given, nils := values(p)
	checkPlaceholders(p.Name, p.Tmpl, p.Build(given), nils, given)
}

// Conditions inside the other statement kinds.
func C02_statements() {
	cs := conds()
	p := PlaceFor(cs[sym.Choose("cond", len(cs))], 1+sym.Choose("statement", 3))
	given, nils := values(p)
	checkPlaceholders(p.Name, p.Tmpl, p.Build(given), nils, given)
}

// Two conditions side by side: the second one goes on where the first stopped.
func C02_pairs() {
	cs := conds()
	c := cs[sym.Choose("first", len(cs))]
	d := cs[sym.Choose("second", len(cs))]
	n, m := ref.Marks(c.Tmpl), ref.Marks(d.Tmpl)
	given, nils := make([]any_, n+m), make([]bool, n+m)
	for i := range given {
		given[i] = sym.Int64("v")
	}
	b := lk.Delete("t").Where(c.Build(given[:n])).And(d.Build(given[n:]))
	checkPlaceholders(c.Name+"+"+d.Name, `DELETE FROM "t" WHERE (`+c.Tmpl+" AND "+d.Tmpl+")", b, nils, given)
}

// Values of every kind, contents arbitrary, so that any two of them may be equal; one of them may be nil.
func C02_kinds() {
	p := AnyPlace()
	n := ref.Marks(p.Tmpl)
	k := sym.Choose("kind", nKinds)
	given, want, nils := make([]any_, n), make([]any_, n), make([]bool, n)
	for i := range given {
		given[i], want[i] = OpaqueValue("v", k)
	}
	if at := sym.Choose("nil at", n+1); at < n {
		given[at], want[at], nils[at] = nil, nil, true
	}
	checkPlaceholders(p.Name+" "+kindNames[k], p.Tmpl, p.Build(given), nils, want)
}

// Two places of the same statement with values of any two kinds.
func C02_mixed() {
	ps := places()
	p := ps[sym.Choose("place", len(ps))]
	n := ref.Marks(p.Tmpl)
	sym.Assume(n > 1)
	given, want, nils := make([]any_, n), make([]any_, n), make([]bool, n)
	pick := []int{0, 1, 2, 6, 9, 14, 15, 17, 18, 20, 24, 28, 29, 30}
	k, l := pick[sym.Choose("kind", len(pick))], pick[sym.Choose("other kind", len(pick))]
	for i := range given {
		if i%2 == 0 {
			given[i], want[i] = OpaqueValue("v", k)
		} else {
			given[i], want[i] = OpaqueValue("v", l)
		}
	}
	checkPlaceholders(p.Name+" "+kindNames[k]+" "+kindNames[l], p.Tmpl, p.Build(given), nils, want)
}

// Long lists of values: two and three digit placeholder numbers, possibly one nil.
func C02_long() {
	n := longSizes[sym.Choose("size", sym.Bound(6, 9))]
	form := sym.Choose("form", nLongForms)
	given, nils := make([]any_, n), make([]bool, n)
	k := sym.Choose("kind", 2)
	for i := range given {
		if k == 0 {
			given[i] = sym.Text("v", 0, 24)
		} else {
			given[i] = sym.Int64("v")
		}
	}
	if at := sym.Choose("nil at", 12); at < 11 {
		at = []int{0, 1, 8, 9, 10, 15, 16, 98, 99, n - 2, n - 1}[at]
		sym.Assume(at < n)
		nils[at], given[at] = true, nil
	}
	p := longPlace(form, n)
	checkPlaceholders(p.Name, p.Tmpl, p.Build(given), nils, given)
}

// Typed slices of any length.
func C02_slices() {
	n := longSizes[sym.Choose("size", sym.Bound(6, 9))]
	c, tmpl, vs := longSlices(sym.Choose("form", nLongSlices), n)
	checkPlaceholders("long slices", `UPDATE "t" SET "z" = ? WHERE `+tmpl, lk.Update("t").Set(lk.Pair("z", 5)).Where(c), make([]bool, n+1), append([]any_{5}, vs...))
}

// Values wherever a builder has several clauses with values, the calls made in any of several orders.
func C02_order() {
	v := make([]any_, 5)
	for i := range v {
		v[i] = sym.Int64("v")
	}
	nils := make([]bool, 5)
	fs := []func(b builder.Select) builder.Select{
		func(b builder.Select) builder.Select { return b.With(lk.With("c", subq(v[0]))) },
		func(b builder.Select) builder.Select { return b.Columns(lk.Exists(subq(v[1])), "x") },
		func(b builder.Select) builder.Select { return b.Where(eq("a", v[2])) },
		func(b builder.Select) builder.Select { return b.Having(eq("h", v[3])) },
		func(b builder.Select) builder.Select {
			return b.Or(lk.Condition("z").In(lk.Select("w").From("y").Where(eq("q", v[4]))))
		},
	}
	b := lk.Select("x").From("t")
	tmpl := `WITH c AS (SELECT "i" FROM "j" WHERE ("k" = ?)) SELECT EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)), "x" FROM "t" WHERE (("a" = ?) OR ("z" IN (SELECT "w" FROM "y" WHERE ("q" = ?)))) HAVING ("h" = ?)`
	used := [5]bool{}
	for step := 0; step < 5; step++ {
		k := sym.Choose("clause", 5)
		sym.Assume(!used[k] && !(k == 4 && !used[2]))
		used[k] = true
		b = fs[k](b)
	}
	checkPlaceholders("clauses in any order", tmpl, b, nils, []any_{v[0], v[1], v[2], v[4], v[3]})
}

var _ = stmt.NewRaw
