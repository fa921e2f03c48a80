package props

import (
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// Method is one builder call. tag makes what it adds distinguishable from every other call.
type Method struct {
	Name  string
	Apply func(b builder.Builder, tag string, v any_) builder.Builder
}

func smeth(name string, f func(b builder.Select, t string, v any_) builder.Select) Method {
	return Method{name, func(b builder.Builder, t string, v any_) builder.Builder { return f(b.(builder.Select), t, v) }}
}
func imeth(name string, f func(b builder.Insert, t string, v any_) builder.Insert) Method {
	return Method{name, func(b builder.Builder, t string, v any_) builder.Builder { return f(b.(builder.Insert), t, v) }}
}
func umeth(name string, f func(b builder.Update, t string, v any_) builder.Update) Method {
	return Method{name, func(b builder.Builder, t string, v any_) builder.Builder { return f(b.(builder.Update), t, v) }}
}
func dmeth(name string, f func(b builder.Delete, t string, v any_) builder.Delete) Method {
	return Method{name, func(b builder.Builder, t string, v any_) builder.Builder { return f(b.(builder.Delete), t, v) }}
}

// methodsOf lists the calls of a kind, those that can be repeated first (nRepeat of them).
func methodsOf(k Kind) (ms []Method, nRepeat int) {
	switch k {
	case kSelect:
		return []Method{
			smeth("Join", func(b builder.Select, t string, v any_) builder.Select { return b.Join("j"+t, "ON a = b"+t) }),
			smeth("With", func(b builder.Select, t string, v any_) builder.Select { return b.With(lk.With("c"+t, subq(v))) }),
			smeth("OrderBy", func(b builder.Select, t string, v any_) builder.Select { return b.OrderBy(lk.Order("o" + t)) }),
			smeth("Where", func(b builder.Select, t string, v any_) builder.Select { return b.Where(eq("w"+t, v)) }),
			smeth("And", func(b builder.Select, t string, v any_) builder.Select { return b.And(eq("w"+t, v)) }),
			smeth("Or", func(b builder.Select, t string, v any_) builder.Select { return b.Or(eq("w"+t, v)) }),
			smeth("Or(Exists)", func(b builder.Select, t string, v any_) builder.Select { return b.Or(lk.Exists(subq(v))) }),
			smeth("Columns", func(b builder.Select, t string, v any_) builder.Select { return b.Columns("x"+t, "y") }),
			smeth("Comment", func(b builder.Select, t string, v any_) builder.Select { return b.Comment(t) }),
			smeth("With2", func(b builder.Select, t string, v any_) builder.Select {
				return b.With(lk.With("c"+t, subq(v)), lk.With("d"+t, subq(v)))
			}),
			smeth("OrderBy2", func(b builder.Select, t string, v any_) builder.Select {
				return b.OrderBy(lk.Column("o"+t).Desc(), lk.Order("p"+t))
			}),
			smeth("Distinct", func(b builder.Select, t string, v any_) builder.Select { return b.Distinct() }),
			smeth("DistinctOn", func(b builder.Select, t string, v any_) builder.Select { return b.DistinctOn("d" + t) }),
			smeth("From", func(b builder.Select, t string, v any_) builder.Select { return b.From("f" + t) }),
			smeth("GroupBy", func(b builder.Select, t string, v any_) builder.Select { return b.GroupBy("g" + t) }),
			smeth("Having", func(b builder.Select, t string, v any_) builder.Select { return b.Having(eq("h"+t, v)) }),
			smeth("Limit", func(b builder.Select, t string, v any_) builder.Select { return b.Limit(100 + len(t)) }),
			smeth("Offset", func(b builder.Select, t string, v any_) builder.Select { return b.Offset(200 + len(t)) }),
			smeth("Suffix", func(b builder.Select, t string, v any_) builder.Select { return b.Suffix("S" + t) }),
			smeth("Prefix", func(b builder.Select, t string, v any_) builder.Select { return b.Prefix("P" + t) }),
		}, 11
	case kInsert:
		return []Method{
			imeth("Comment", func(b builder.Insert, t string, v any_) builder.Insert { return b.Comment(t) }),
			imeth("Into", func(b builder.Insert, t string, v any_) builder.Insert { return b.Into("t" + t) }),
			imeth("Columns", func(b builder.Insert, t string, v any_) builder.Insert { return b.Columns("a"+t, "b"+t) }),
			imeth("Values", func(b builder.Insert, t string, v any_) builder.Insert { return b.Values(v, "k"+t) }),
			imeth("Set", func(b builder.Insert, t string, v any_) builder.Insert {
				return b.Set(lk.Pair("z"+t, v), lk.Map{"a" + t: t})
			}),
			imeth("OnConflict", func(b builder.Insert, t string, v any_) builder.Insert {
				return b.OnConflict("a"+t, "b", lk.DoUpdate(lk.Pair("c"+t, v)))
			}),
			imeth("OnConflictNothing", func(b builder.Insert, t string, v any_) builder.Insert { return b.OnConflict("a"+t, lk.DoNothing()) }),
			imeth("Returning", func(b builder.Insert, t string, v any_) builder.Insert { return b.Returning("r"+t, "s") }),
		}, 1
	case kUpdate:
		return []Method{
			umeth("Set(Pair)", func(b builder.Update, t string, v any_) builder.Update { return b.Set(lk.Pair("a"+t, v)) }),
			umeth("Set(Map)", func(b builder.Update, t string, v any_) builder.Update {
				return b.Set(lk.Map{"z" + t: v, "b" + t: v})
			}),
			umeth("Set(same)", func(b builder.Update, t string, v any_) builder.Update { return b.Set(lk.Pair("same", v)) }),
			umeth("Set(column)", func(b builder.Update, t string, v any_) builder.Update { return b.Set("a" + t) }),
			umeth("Using", func(b builder.Update, t string, v any_) builder.Update { return b.Using(v) }),
			umeth("Using2", func(b builder.Update, t string, v any_) builder.Update { return b.Using(v, t) }),
			umeth("With", func(b builder.Update, t string, v any_) builder.Update { return b.With(lk.With("c"+t, subq(v))) }),
			umeth("Where", func(b builder.Update, t string, v any_) builder.Update { return b.Where(eq("w"+t, v)) }),
			umeth("And", func(b builder.Update, t string, v any_) builder.Update { return b.And(eq("w"+t, v)) }),
			umeth("Or", func(b builder.Update, t string, v any_) builder.Update { return b.Or(eq("w"+t, v)) }),
			umeth("And(In)", func(b builder.Update, t string, v any_) builder.Update { return b.And(lk.Condition("w"+t).In(v, t)) }),
			umeth("Comment", func(b builder.Update, t string, v any_) builder.Update { return b.Comment(t) }),
			umeth("Only", func(b builder.Update, t string, v any_) builder.Update { return b.Only() }),
			umeth("From", func(b builder.Update, t string, v any_) builder.Update { return b.From("f" + t) }),
			umeth("Returning", func(b builder.Update, t string, v any_) builder.Update { return b.Returning("r"+t, "s") }),
		}, 12
	}
	return []Method{
		dmeth("Where", func(b builder.Delete, t string, v any_) builder.Delete { return b.Where(eq("w"+t, v)) }),
		dmeth("And", func(b builder.Delete, t string, v any_) builder.Delete { return b.And(eq("w"+t, v)) }),
		dmeth("Or", func(b builder.Delete, t string, v any_) builder.Delete { return b.Or(eq("w"+t, v)) }),
		dmeth("And(NotExists)", func(b builder.Delete, t string, v any_) builder.Delete { return b.And(lk.NotExists(subq(v))) }),
		dmeth("Comment", func(b builder.Delete, t string, v any_) builder.Delete { return b.Comment(t) }),
		dmeth("From", func(b builder.Delete, t string, v any_) builder.Delete { return b.From("f"+t, "g") }),
		dmeth("Using", func(b builder.Delete, t string, v any_) builder.Delete { return b.Using("u"+t, "v") }),
		dmeth("Returning", func(b builder.Delete, t string, v any_) builder.Delete { return b.Returning("r"+t, "s") }),
	}, 5
}

// startOf is a builder of the kind on which the methods make sense.
func startOf(k Kind, shape int) builder.Builder {
	switch {
	case shape > 4: // a condition of any form
		return where(filterable([]int{0, 0, 1, 2}[k]), 0, goodCond(shape-5, "w", 0))
	case shape == 3 && k == kInsert:
		return lk.Insert("t").Set(lk.Map{"a": 1}).OnConflict("a", lk.DoUpdate(lk.Pair("b", 2)))
	case shape == 4: // every clause
		h, cs := clausesOf(k)
		b := h.New()
		for _, c := range cs {
			if c.Name != "Distinct" {
				b = c.Apply(b, plainValues(c))
			}
		}
		return b
	}
	switch k {
	case kSelect:
		switch shape {
		case 0:
			return lk.Select("x").From("t")
		case 1:
			return lk.Select("x").Where(eq("w", 0))
		}
		return builder.NewSelect()
	case kInsert:
		switch shape {
		case 0:
			return lk.Insert("t")
		case 1:
			return lk.Insert("t").Columns("a").Values(1)
		}
		return builder.NewInsert()
	case kUpdate:
		switch shape {
		case 0:
			return lk.Update("t").Set(lk.Pair("a0", 1))
		case 1:
			return lk.Update("t").Set("c0").Using(1)
		}
		return lk.Update("t")
	}
	switch shape {
	case 0:
		return lk.Delete("t").Where(eq("w", 0))
	case 1:
		return lk.Delete("t")
	}
	return builder.NewDelete()
}

// snap is what a builder renders, without the debug text (which C03 ties to the rest).
type snap struct {
	ok    bool
	text  string
	args  []any_
	ntext string
	nargs map[string]any_
}

func take(b builder.Builder) snap {
	var s snap
	s.ok, _ = Try(func() {
		s.text, s.args = b.Query()
		s.ntext, s.nargs = b.NamedQuery()
	})
	return s
}

func (s snap) same(o snap) bool {
	if s.ok != o.ok {
		return false
	}
	if !s.ok {
		return true
	}
	if s.text != o.text || s.ntext != o.ntext || !SameArgs(s.args, o.args) || len(s.nargs) != len(o.nargs) {
		return false
	}
	for i := range s.args {
		k := named(i)[1:]
		if !SameArgs([]any_{s.nargs[k]}, []any_{o.nargs[k]}) {
			return false
		}
	}
	return true
}

// call applies a method; a refused call leaves no builder.
func call(m Method, b builder.Builder, tag string, v any_) (out builder.Builder) {
	Try(func() { out = m.Apply(b, tag, v) })
	return
}

// Two builders derived from one, and one derived from the first of them: none of the others changes, and each
// renders what the same calls render when nothing else is derived.
func c05Derive(k Kind, depth int) {
	sym.MapOrder(1) // iteration orders are C12's subject
	ms, nr := methodsOf(k)
	shape := sym.Choose("start", 5)
	if shape == 3 && k != kInsert {
		shape = 5 + sym.Choose("condition", nGood)
	}
	grow, times := 0, 0
	if times = sym.Choose("times", depth+1); times > 0 {
		// 3 and 5 calls leave room after the last element of a list grown by append
		sym.Assume(shape == 0 || depth > 3 && shape < 3)
		sym.Assume(times != 2 || depth > 3)
		grow = sym.Choose("repeated", nr)
	}
	m1, m2 := sym.Choose("first", len(ms)), sym.Choose("second", len(ms))
	m3 := m1
	if sym.Choose("third", 2) == 1 {
		m3 = m2
	}
	v := sym.Int64("v")
	v1, v2, v3 := sym.Int64("v1"), sym.Int64("v2"), sym.Int64("v3")

	build := func() builder.Builder {
		b := startOf(k, shape)
		for i := 0; i < times && b != nil; i++ {
			b = call(ms[grow], b, "i"+string(rune('0'+i)), v)
		}
		return b
	}
	base := build()
	if base == nil {
		return
	}
	s0 := take(base)
	d1 := call(ms[m1], base, "one", v1)
	what := ms[m1].Name + " then " + ms[m2].Name
	sym.Assert(take(base).same(s0), "C05 a call leaves its receiver as it was: "+ms[m1].Name)
	var s1 snap
	if d1 != nil {
		s1 = take(d1)
		sym.Observe("first", s1.text)
	}
	d2 := call(ms[m2], base, "second", v2)
	sym.Assert(take(base).same(s0), "C05 a second call leaves its receiver as it was: "+what)
	if d1 != nil {
		sym.Assert(take(d1).same(s1), "C05 a sibling keeps its rendering: "+what)
	}
	var s2 snap
	if d2 != nil {
		s2 = take(d2)
		alone := call(ms[m2], build(), "second", v2)
		sym.Assert(alone != nil && take(alone).same(s2), "C05 a sibling renders what it renders on its own: "+what)
	}
	if d1 == nil {
		return
	}
	d3 := call(ms[m3], d1, "thirdone", v3)
	sym.Assert(take(base).same(s0) && take(d1).same(s1), "C05 ancestors keep their rendering: "+what)
	if d2 != nil {
		sym.Assert(take(d2).same(s2), "C05 a cousin keeps its rendering: "+what)
	}
	if d3 != nil {
		s3 := take(d3)
		d4 := call(ms[m2], d1, "fourth", v2)
		sym.Assert(take(d3).same(s3), "C05 a later sibling leaves the rendering as it was: "+what)
		_ = d4
	}
}

func C05_select() { c05Derive(kSelect, sym.Bound(3, 5)) }
func C05_insert() { c05Derive(kInsert, 1) }
func C05_update() { c05Derive(kUpdate, sym.Bound(3, 5)) }
func C05_delete() { c05Derive(kDelete, sym.Bound(3, 5)) }

// Slices and maps given to the API, with room after their last element, are not written to.
func C05_arguments() {
	v := sym.Int64("v")
	names := append(make([]string, 0, 8), "n1", " n2 ", "N3\t")
	cols := append(make([]stmt.Column, 0, 8), lk.Column("z"), lk.Column("y"), lk.Column("k"))
	sels := append(make([]stmt.SelectExpression, 0, 8), lk.Column("z"), lk.Count("y"))
	anys := append(make([]any_, 0, 8), v, "b", int64(3))
	mixed := append(make([]any_, 0, 8), " z", lk.Column(" y "), "K ")
	tables := append(make([]any_, 0, 8), "t1", lk.Table("t2"))
	rows := append(make([][]any_, 0, 8), anys, []any_{1, 2, v})
	strs := append(make([]string, 0, 8), " q ", "R")
	ints := append(make([]int64, 0, 8), v, 5)
	exps := append(make([]stmt.Expression, 0, 8), lk.Raw("1"), lk.Value(v))
	with := append(make([]stmt.WithQuery, 0, 8), lk.With("c", subq(v)), lk.With("d", subq(v)))
	orders := append(make([]stmt.Order, 0, 8), lk.Order("o"), lk.Order("p", lk.Desc))
	m := map[string]interface{}{" b ": v, "A": 1}
	lm := lk.Map{"b": v, lk.Column("a"): 1}
	pairs := append(make([]any_, 0, 8), lk.Pair("z", v), lk.Pair("a", 1))
	conflict := append(make([]any_, 0, 8), "a", lk.Column("b"), lk.DoUpdate(lm))
	bytes := append(make([]byte, 0, 8), 1, 2, 3)
	from := stmt.NewFrom(append(make([]stmt.Statement, 0, 8), lk.Table("t1"), lk.Table("t2")))
	g := sym.Freeze(names, cols, sels, anys, mixed, tables, rows, strs, ints, exps, with, orders, m, lm, pairs, conflict, bytes, from)

	forms := []func() []builder.Builder{
		func() []builder.Builder {
			b := lk.Select(names).From(tables...)
			return []builder.Builder{b, b.Columns(cols), b.Columns(sels), b.Columns(mixed...), b.DistinctOn(cols), b.DistinctOn(names), b.GroupBy(cols), b.GroupBy(mixed...)}
		},
		func() []builder.Builder {
			b := lk.Select("x").From(from).With(with...).OrderBy(orders...)
			return []builder.Builder{b, b.With(with[:1]...), b.With(with...).With(lk.With("e", subq(v))), b.OrderBy(orders[:1]...), b.OrderBy(orders...).OrderBy(lk.Order("q"))}
		},
		func() []builder.Builder {
			b := lk.Select("x").From("t")
			return []builder.Builder{b.Where(lk.Condition("a").In(strs)), b.Where(lk.Condition("a").In(anys...)), b.Where(lk.Condition("a").In(anys[:2])),
				b.Where(lk.Condition("a").NotIn(ints)), b.Where(lk.Condition("a").In(exps)), b.Where(lk.Condition("a").Equal(bytes)),
				b.Where(lk.Condition("a").Contains(strs)), b.Where(lk.Condition("a").Equal(ints)), b.Where(lk.Condition("a").Equal(m)),
				b.Where(stmt.NewCall("f", exps...).Equal(v))}
		},
		func() []builder.Builder {
			b := lk.Insert("t")
			return []builder.Builder{b.Columns(cols).Values(anys...), b.Columns(names).Values(anys), b.Columns(mixed...).Values(rows), b.Set(m), b.Set(lm), b.Set(pairs...),
				b.Set(pairs...).OnConflict(conflict...), b.Columns(cols).Values(1, 2, 3).Returning(sels), b.Columns(cols).Returning(mixed...), b.Values(strs)}
		},
		func() []builder.Builder {
			b := lk.Update("t")
			c := b.Set(mixed...)
			return []builder.Builder{b.Set(m), b.Set(lm), b.Set(pairs...), b.Set(m).Set(pairs...), b.Set(pairs...).Set(lm).Returning(cols), c.Using(anys...), c.Using(anys[:1]...).Using(anys[1:]...),
				b.Set(m).From(from).With(with...), b.Set(m).Returning(names)}
		},
		func() []builder.Builder {
			b := lk.Delete(tables[0]).Using(tables...)
			return []builder.Builder{b, builder.NewDelete().From(tables...), builder.NewDelete().From(from), b.Returning(cols), b.Returning(sels)}
		},
	}
	bs := forms[sym.Choose("form", len(forms))]()
	sym.Assert(!sym.Touched(g), "C05 building writes to no slice or map given to the API")
	b := bs[sym.Concretize(pick("builder", len(bs)))]
	s := take(b)
	sym.Assert(s.ok, "C05 renders")
	sym.Assert(!sym.Touched(g), "C05 rendering writes to no slice or map given to the API")
	for _, o := range bs {
		take(o)
	}
	sym.Assert(take(b).same(s), "C05 builders given the same slices do not disturb each other")
	// what the arguments contain is what they contained
	sym.Assert(names[0] == "n1" && cols[0].Name == "z" && anys[0] == any_(v) && len(m) == 2 && m[" b "] == any_(v) && names[1] == " n2 " && ints[0] == v, "C05 arguments keep their contents")
}

// The same with names of any text in the slices: one byte long, and empty elements between them.
func C05_names() {
	sym.MapOrder(1)
	w := func() string { return sym.Str("name", 1) }
	a, b := w(), w()
	strs := append(make([]string, 0, 8), a, "k", b)
	anys := append(make([]any_, 0, 8), a, "k", lk.Column(b), "z, y")
	cols := append(make([]stmt.Column, 0, 8), lk.Column(a), lk.Column("k"), lk.Column(b))
	sels := append(make([]stmt.SelectExpression, 0, 8), lk.Column(a), lk.Raw(b), lk.Count(b))
	m := map[string]interface{}{a: 1, "kk": 2}
	lm := lk.Map{lk.Column(a): 1, "kk": 2}
	pairs := append(make([]any_, 0, 8), lk.Pair(b, 1), lk.Pair(a, 2), lk.Pair(lk.Column(a), 3))
	conflict := append(make([]any_, 0, 8), a, lk.Column(b), lk.DoNothing())
	tables := append(make([]any_, 0, 8), a, lk.Table(b))
	g := sym.Freeze(strs, anys, cols, sels, m, lm, pairs, conflict, tables)
	var fs []func() builder.Builder
	add := func(f func() builder.Builder) { fs = append(fs, f) }
	for _, c := range append(selectLists(), columnLists()...) {
		c := c
		add(func() builder.Builder { return c.Build(strs) })
		add(func() builder.Builder { return c.Build(anys...) })
		add(func() builder.Builder { return c.Build(cols) })
		add(func() builder.Builder { return c.Build(sels) })
		add(func() builder.Builder { return c.Build(strs, a) })
	}
	for _, c := range tableLists() {
		c := c
		add(func() builder.Builder { return c.Build(tables...) })
	}
	add(func() builder.Builder { return lk.Insert("t").Set(m).OnConflict(conflict...) })
	add(func() builder.Builder { return lk.Insert("t").Set(lm) })
	add(func() builder.Builder { return lk.Insert("t").Set(pairs...).OnConflict(a, lk.DoUpdate(pairs...)) })
	add(func() builder.Builder { return lk.Insert("t").Values(strs) })
	add(func() builder.Builder { return lk.Insert("t").Values(anys) })
	add(func() builder.Builder { return lk.Update("t").Set(m).Set(pairs...) })
	add(func() builder.Builder { return lk.Update("t").Set(pairs...).Set(lm) })
	add(func() builder.Builder { return lk.Update("t").Set(strs).Using(strs) })
	add(func() builder.Builder { return lk.Delete("t").Where(lk.Condition("a").In(strs)) })
	add(func() builder.Builder { return lk.Delete("t").Where(lk.Condition("a").NotIn(anys[:2]...)) })
	k := sym.Choose("form", len(fs))
	var o builder.Builder
	ok, _ := Try(func() { o = fs[k]() })
	sym.Assert(!sym.Touched(g), "C05 building writes to no slice or map of names given to the API")
	if !ok {
		return
	}
	s := take(o)
	sym.Assert(!sym.Touched(g), "C05 rendering writes to no slice or map of names given to the API")
	ok, _ = Try(func() { take(fs[k]()) })
	sym.Assert(!sym.Touched(g), "C05 a second builder writes to no slice or map of names given to the API")
	sym.Assert(ok && take(o).same(s), "C05 builders given the same names do not disturb each other")
}

func pick(name string, n int) int { return sym.Choose(name, n) }

// A clause in any of its forms, then each of two others of that clause on the same builder: none of the three
// disturbs another.
func C05_forms() {
	sym.MapOrder(1)
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	c := sym.Choose("clause", len(cs))
	fs := formsOf(k, cs[c].Name)
	v := sym.Int64("v")
	b := h.New()
	for i := range cs {
		if i != c && need(k, cs[i].Name) {
			b = cs[i].Apply(b, plainValues(cs[i]))
		}
	}
	do := func(b builder.Builder, f int, w any_) (out builder.Builder) {
		if b != nil {
			Try(func() { out = fs[f](b, []any_{v, w}) })
		}
		return
	}
	base := b
	if !cs[c].Once {
		n := len(fs)
		if m := sym.Bound(8, 100); n > m {
			n = m
		}
		base = do(b, sym.Choose("before", n), 1)
	}
	s0 := take(base)
	f1, f2 := sym.Choose("one", len(fs)), sym.Choose("other", len(fs))
	alone := take2(do(base, f2, 3))
	one := do(base, f1, 2)
	s1 := take2(one)
	other := do(base, f2, 3)
	sym.Assert(take(base).same(s0), "C05 a call leaves its receiver as it was: "+cs[c].Name)
	sym.Assert(take2(one).same(s1), "C05 a sibling keeps its rendering: "+cs[c].Name)
	sym.Assert(take2(other).same(alone), "C05 a call adds the same whatever else was derived: "+cs[c].Name)
	third := do(one, f2, 4)
	take2(third)
	sym.Assert(take(base).same(s0) && take2(one).same(s1) && take2(other).same(alone), "C05 ancestors and cousins keep their rendering: "+cs[c].Name)
}

func take2(b builder.Builder) snap {
	if b == nil {
		return snap{}
	}
	return take(b)
}
