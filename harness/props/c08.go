package props

import (
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// once is a clause that can appear only once, with every way of defining it.
type once struct {
	Name  string
	Forms []func(b builder.Builder, v any_) builder.Builder
}

func onceOf(k Kind) []once {
	s := func(fs ...func(b builder.Select, v any_) builder.Select) (out []func(builder.Builder, any_) builder.Builder) {
		for _, f := range fs {
			f := f
			out = append(out, func(b builder.Builder, v any_) builder.Builder { return f(b.(builder.Select), v) })
		}
		return
	}
	i := func(fs ...func(b builder.Insert, v any_) builder.Insert) (out []func(builder.Builder, any_) builder.Builder) {
		for _, f := range fs {
			f := f
			out = append(out, func(b builder.Builder, v any_) builder.Builder { return f(b.(builder.Insert), v) })
		}
		return
	}
	u := func(fs ...func(b builder.Update, v any_) builder.Update) (out []func(builder.Builder, any_) builder.Builder) {
		for _, f := range fs {
			f := f
			out = append(out, func(b builder.Builder, v any_) builder.Builder { return f(b.(builder.Update), v) })
		}
		return
	}
	d := func(fs ...func(b builder.Delete, v any_) builder.Delete) (out []func(builder.Builder, any_) builder.Builder) {
		for _, f := range fs {
			f := f
			out = append(out, func(b builder.Builder, v any_) builder.Builder { return f(b.(builder.Delete), v) })
		}
		return
	}
	switch k {
	case kSelect:
		return []once{
			{"FROM", s(func(b builder.Select, v any_) builder.Select { return b.From("f1") },
				func(b builder.Select, v any_) builder.Select { return b.From(lk.Table("f2"), "f3") },
				func(b builder.Select, v any_) builder.Select { return b.From(lk.Raw("f4")) })},
			{"DISTINCT ON", s(func(b builder.Select, v any_) builder.Select { return b.DistinctOn("d1") },
				func(b builder.Select, v any_) builder.Select { return b.DistinctOn([]string{"d2", "d3"}) })},
			{"GROUP BY", s(func(b builder.Select, v any_) builder.Select { return b.GroupBy("g1") },
				func(b builder.Select, v any_) builder.Select { return b.GroupBy(lk.Column("g2"), "g3") })},
			{"HAVING", s(func(b builder.Select, v any_) builder.Select { return b.Having(eq("h1", v)) },
				func(b builder.Select, v any_) builder.Select {
					return b.Having(lk.Condition("h2").In(v, v).And(eq("h3", v)))
				},
				func(b builder.Select, v any_) builder.Select { return b.Having(lk.Exists(subq(v))) })},
			{"LIMIT", s(func(b builder.Select, v any_) builder.Select { return b.Limit(posNumber(v)) },
				func(b builder.Select, v any_) builder.Select { return b.Limit("10") },
				func(b builder.Select, v any_) builder.Select { return b.Limit(lk.Limit(7)) })},
			{"OFFSET", s(func(b builder.Select, v any_) builder.Select { return b.Offset(posNumber(v)) },
				func(b builder.Select, v any_) builder.Select { return b.Offset("10") },
				func(b builder.Select, v any_) builder.Select { return b.Offset(lk.Offset(7)) })},
			{"prefix", s(func(b builder.Select, v any_) builder.Select { return b.Prefix("P") },
				func(b builder.Select, v any_) builder.Select { return b.Prefix(stmt.NewPrefix("Q")) })},
			{"suffix", s(func(b builder.Select, v any_) builder.Select { return b.Suffix("S") },
				func(b builder.Select, v any_) builder.Select { return b.Suffix(stmt.NewSuffix("T")) })},
		}
	case kInsert:
		return []once{
			{"INTO", i(func(b builder.Insert, v any_) builder.Insert { return b.Into("t1") },
				func(b builder.Insert, v any_) builder.Insert { return b.Into(lk.Table("t2")) },
				func(b builder.Insert, v any_) builder.Insert { return b.Into(stmt.NewInto(lk.Table("t3"))) })},
			{"columns", i(func(b builder.Insert, v any_) builder.Insert { return b.Columns("a", "b") },
				func(b builder.Insert, v any_) builder.Insert { return b.Columns([]string{"c"}) },
				func(b builder.Insert, v any_) builder.Insert { return b.Set(lk.Pair("s", v)) },
				func(b builder.Insert, v any_) builder.Insert { return b.Set(lk.Map{"m": v}) })},
			{"values", i(func(b builder.Insert, v any_) builder.Insert { return b.Values(v, v) },
				func(b builder.Insert, v any_) builder.Insert { return b.Values([][]any_{{v}, {v}}) },
				func(b builder.Insert, v any_) builder.Insert { return b.Values(nil) },
				func(b builder.Insert, v any_) builder.Insert { return b.Set(lk.Pair("s", v)) },
				func(b builder.Insert, v any_) builder.Insert { return b.Set(lk.Map{"m": v}) })},
			{"RETURNING", i(func(b builder.Insert, v any_) builder.Insert { return b.Returning("r1") },
				func(b builder.Insert, v any_) builder.Insert { return b.Returning(lk.Raw("*"), lk.Column("r2")) })},
			{"ON CONFLICT", i(func(b builder.Insert, v any_) builder.Insert { return b.OnConflict("a", lk.DoNothing()) },
				func(b builder.Insert, v any_) builder.Insert { return b.OnConflict(lk.DoNothing()) },
				func(b builder.Insert, v any_) builder.Insert { return b.OnConflict("a", lk.DoUpdate(lk.Pair("a", v))) })},
		}
	case kUpdate:
		return []once{
			{"FROM", u(func(b builder.Update, v any_) builder.Update { return b.From("f1") },
				func(b builder.Update, v any_) builder.Update { return b.From(lk.Table("f2").As("x")) },
				func(b builder.Update, v any_) builder.Update { return b.From(lk.Raw("f3")) })},
			{"RETURNING", u(func(b builder.Update, v any_) builder.Update { return b.Returning("r1") },
				func(b builder.Update, v any_) builder.Update { return b.Returning(lk.Raw("*"), lk.Column("r2")) })},
		}
	}
	return []once{
		{"FROM", d(func(b builder.Delete, v any_) builder.Delete { return b.From("f1") },
			func(b builder.Delete, v any_) builder.Delete { return b.From(lk.Table("f2").Only(), "f3") })},
		{"USING", d(func(b builder.Delete, v any_) builder.Delete { return b.Using("u1") },
			func(b builder.Delete, v any_) builder.Delete { return b.Using("u2", lk.Table("u3")) })},
		{"RETURNING", d(func(b builder.Delete, v any_) builder.Delete { return b.Returning("r1") },
			func(b builder.Delete, v any_) builder.Delete { return b.Returning(lk.Raw("*"), lk.Column("r2")) })},
	}
}

// posNumber is an arbitrary positive number made from an arbitrary value.
func posNumber(v any_) int64 {
	n := v.(int64)
	sym.Assume(n > 0)
	return n
}

// others are the remaining clauses, among which each must be accepted whatever the state of the clause under test.
func clauseSetters(k Kind) []once {
	out := onceOf(k)
	switch k {
	case kSelect:
		out = append(out, once{"rest", []func(builder.Builder, any_) builder.Builder{func(b builder.Builder, v any_) builder.Builder {
			return b.(builder.Select).With(lk.With("c", subq(v))).Join("j", "ON a = b").Where(eq("w", v)).OrderBy(lk.Order("o")).Distinct().Comment("c")
		}}})
	case kUpdate:
		out = append(out, once{"rest", []func(builder.Builder, any_) builder.Builder{func(b builder.Builder, v any_) builder.Builder {
			return b.(builder.Update).Only().With(lk.With("c", subq(v))).Where(eq("w", v)).Set(lk.Pair("q", v)).Comment("c")
		}}})
	case kDelete:
		out = append(out, once{"rest", []func(builder.Builder, any_) builder.Builder{func(b builder.Builder, v any_) builder.Builder {
			return b.(builder.Delete).Where(eq("w", v)).And(eq("w2", v)).Comment("c")
		}}})
	default:
		out = append(out, once{"rest", []func(builder.Builder, any_) builder.Builder{func(b builder.Builder, v any_) builder.Builder {
			return b.(builder.Insert).Comment("c")
		}}})
	}
	return out
}

func c08Start(k Kind) builder.Builder {
	switch k {
	case kSelect:
		return lk.Select("x")
	case kInsert:
		return builder.NewInsert()
	case kUpdate:
		return lk.Update("t").Set(lk.Pair("a", 1))
	}
	return builder.NewDelete()
}

func refused(f func()) bool {
	ok, _ := Try(f)
	return !ok
}

// Each clause twice, in any two forms, with any other clause before, between or after: the second one is refused.
func C08_twice() {
	k := Kind(sym.Choose("kind", 4))
	cs := onceOf(k)
	c := cs[sym.Choose("clause", len(cs))]
	first, second := sym.Choose("form", len(c.Forms)), sym.Choose("form", len(c.Forms))
	v, w := sym.Int64("v"), sym.Int64("w")
	other := -1
	os := clauseSetters(k)
	at := sym.Choose("other at", 3)
	if at > 0 {
		other = sym.Choose("other", len(os))
	}
	b := c08Start(k)
	put := func(when int) {
		if at == when && other >= 0 && os[other].Name != c.Name {
			o := os[other].Forms[0]
			var d builder.Builder
			if ok, _ := Try(func() { d = o(b, w) }); ok {
				b = d
			}
		}
	}
	put(1)
	var d builder.Builder
	ok, _ := Try(func() { d = c.Forms[first](b, v) })
	if !ok {
		// only Set and Columns/Values exclude each other
		sym.Assert(k == kInsert && other >= 0, "C08 a clause is accepted the first time: "+c.Name)
		return
	}
	b = d
	put(2)
	before := take(b)
	sym.Assert(refused(func() { c.Forms[second](b, w) }), "C08 a second definition is refused: "+c.Name)
	sym.Assert(take(b).same(before), "C08 the refused definition changes nothing: "+c.Name)
}

// Every clause is accepted, and rendered, when every other clause is already defined.
func C08_independent() {
	k := Kind(sym.Choose("kind", 4))
	cs := clauseSetters(k)
	last := sym.Choose("last", len(cs))
	v := sym.Int64("v")
	b := c08Start(k)
	which := sym.Choose("form", 4)
	use := func(i int) {
		// columns, values: Set counts as both, so the plain forms are used here
		var d builder.Builder
		n := len(cs[i].Forms)
		if k == kInsert && cs[i].Name == "columns" {
			n = 2
		}
		if k == kInsert && cs[i].Name == "values" {
			n = 3
		}
		form := which % n
		ok, _ := Try(func() { d = cs[i].Forms[form](b, v) })
		sym.Assert(ok, "C08 a clause is not refused because of another one: "+cs[i].Name)
		b = d
	}
	mask := sym.Choose("reverse", 2)
	for j := range cs {
		i := j
		if mask == 1 {
			i = len(cs) - 1 - j
		}
		if i != last {
			use(i)
		}
	}
	use(last)
	sym.Assert(take(b).ok, "C08 renders")
}

// Any two clauses, nothing else: neither guard reacts to the other clause.
func C08_pairs() {
	k := Kind(sym.Choose("kind", 4))
	cs := clauseSetters(k)
	i, j := sym.Choose("first", len(cs)), sym.Choose("second", len(cs))
	sym.Assume(i != j)
	b := c08Start(k)
	v := sym.Int64("v")
	fi, fj := sym.Choose("form", len(cs[i].Forms)), sym.Choose("form", len(cs[j].Forms))
	b = cs[i].Forms[fi](b, v)
	var d builder.Builder
	ok, _ := Try(func() { d = cs[j].Forms[fj](b, v) })
	if k == kInsert {
		// Set defines columns and values
		set := func(c once, f int) bool { return c.Name == "columns" && f >= 2 || c.Name == "values" && f >= 3 }
		cv := func(c once) bool { return c.Name == "columns" || c.Name == "values" }
		if cv(cs[i]) && cv(cs[j]) && (set(cs[i], fi) || set(cs[j], fj)) {
			sym.Assert(!ok, "C08 Set refuses columns or values already defined, and the other way round")
			return
		}
	}
	sym.Assert(ok, "C08 a clause is not refused because of another one: "+cs[i].Name+", "+cs[j].Name)
	_ = d
}

// The zero offset is no clause: it can be given again.
func C08_offset() {
	n := sym.Int64("n")
	sym.Assume(n >= 0)
	m := sym.Int64("m")
	sym.Assume(m > 0)
	b := lk.Select("x").From("t").Offset(n)
	no := refused(func() { b.Offset(m) })
	sym.Assert(no == (n != 0), "C08 a non-zero offset cannot be replaced")
}

// Every pair of forms of a clause that can appear only once.
func C08_forms() {
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	c := sym.Choose("clause", len(cs))
	sym.Assume(cs[c].Once)
	fs := formsOf(k, cs[c].Name)
	v := []any_{sym.Int64("v"), sym.Int64("v")}
	b := fs[sym.Choose("first", len(fs))](h.New(), v)
	second := fs[sym.Choose("second", len(fs))]
	ok, _ := Try(func() { second(b, v) })
	sym.Assert(!ok, "C08 a second definition is refused: "+cs[c].Name)
}
