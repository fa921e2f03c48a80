package props

import (
	"time"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// Statements whose clauses are all about the same name and the same value: nothing is shared, merged or left out because
// of that.

// alike is the clauses of a statement kind, where every table, column, alias and fragment has the name c. Where two is
// set, each list holds the name twice.
func alike(k Kind, c string, two bool) (Head, []Clause) {
	q := `"` + c + `"`
	sub := func(v any_) builder.Select { return lk.Select(c).From(c).Where(eq(c, v)) }
	subText := "SELECT " + q + " FROM " + q + " WHERE (" + q + " = ?)"
	with := lk.With
	names, list := []any_{c}, q
	if two {
		names, list = []any_{c, lk.Column(c)}, q+", "+q
	}
	tables, froms := []any_{c}, q
	if two {
		tables, froms = []any_{c, lk.Table(c)}, q+", "+q
	}
	switch k {
	case kSelect:
		return Head{2, "SELECT", func() builder.Builder { return builder.NewSelect() }}, []Clause{
			{"Prefix", c, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Prefix(c) })},
			{"With", "WITH " + c + " AS (" + subText + ")", 1, false, sel(func(b builder.Select, v []any_) builder.Select { return b.With(with(c, sub(v[0]))) })},
			{"DistinctOn", "DISTINCT ON (" + list + ")", 0, true, sel(func(b builder.Select, v []any_) builder.Select {
				if two {
					return b.DistinctOn(c, c)
				}
				return b.DistinctOn(c)
			})},
			{"Distinct", `DISTINCT`, 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Distinct() })},
			{"Columns", list + ", " + q + " AS " + q, 0, false, sel(func(b builder.Select, v []any_) builder.Select {
				return b.Columns(append(names[:len(names):len(names)], lk.Column(c).As(c))...)
			})},
			{"From", "FROM " + froms, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.From(tables...) })},
			{"Join", "INNER JOIN " + q + " ON " + q + " = " + q, 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Join(c, "ON "+c+" = "+c) })},
			{"Where", "WHERE (" + q + " = ?)", 1, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Where(eq(c, v[0])) })},
			{"GroupBy", "GROUP BY " + list, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.GroupBy(names...) })},
			{"Having", "HAVING (" + q + " = ?)", 1, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Having(eq(c, v[0])) })},
			{"OrderBy", "ORDER BY " + c + " ASC", 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.OrderBy(lk.Order(c)) })},
			{"Limit", `LIMIT 7`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Limit(7) })},
			{"Offset", `OFFSET 7`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Offset(7) })},
			{"Suffix", c, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Suffix(c) })},
			{"Comment", "; -- " + c, 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Comment(c) })},
		}
	case kInsert:
		row, m := "(?)", 1
		if two {
			row, m = "(?, ?)", 2
		}
		return Head{0, "INSERT", func() builder.Builder { return builder.NewInsert() }}, []Clause{
			{"Into", "INTO " + q, 0, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Into(c) })},
			{"Columns", "(" + list + ")", 0, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Columns(names...) })},
			{"Values", "VALUES " + row + ", " + row, 2 * m, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values([][]any_{v[:m], v[m:]}) })},
			{"OnConflict", "ON CONFLICT (" + list + ") DO UPDATE SET " + q + " = ?", 1, true, ins(func(b builder.Insert, v []any_) builder.Insert {
				return b.OnConflict(append(names[:len(names):len(names)], lk.DoUpdate(lk.Pair(c, v[0])))...)
			})},
			{"Returning", "RETURNING " + list, 0, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Returning(names...) })},
			{"Comment", "; -- " + c, 0, false, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Comment(c) })},
		}
	case kUpdate:
		set := Clause{"Set", q + " SET " + q + " = ?", 1, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Set(lk.Pair(c, v[0])) })}
		if two {
			set = Clause{"Set", q + " SET " + q + " = (" + subText + ")", 1, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Set(lk.Pair(c, sub(v[0]))) })}
		}
		return Head{1, "UPDATE", func() builder.Builder { return lk.Update(c) }}, []Clause{
			{"With", "WITH " + c + " AS (" + subText + ")", 1, false, upd(func(b builder.Update, v []any_) builder.Update { return b.With(with(c, sub(v[0]))) })},
			{"Only", `ONLY`, 0, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Only() })},
			set,
			{"From", "FROM " + q, 0, true, upd(func(b builder.Update, v []any_) builder.Update { return b.From(c) })},
			{"Where", "WHERE (" + q + " = ?)", 1, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Where(eq(c, v[0])) })},
			{"Returning", "RETURNING " + list, 0, true, upd(func(b builder.Update, v []any_) builder.Update { return b.Returning(names...) })},
			{"Comment", "; -- " + c, 0, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Comment(c) })},
		}
	}
	return Head{0, "DELETE", func() builder.Builder { return builder.NewDelete() }}, []Clause{
		{"From", "FROM " + froms, 0, true, del(func(b builder.Delete, v []any_) builder.Delete { return b.From(tables...) })},
		{"Using", "USING " + froms, 0, true, del(func(b builder.Delete, v []any_) builder.Delete { return b.Using(tables...) })},
		{"Where", "WHERE (" + q + " = ?)", 1, false, del(func(b builder.Delete, v []any_) builder.Delete { return b.Where(eq(c, v[0])) })},
		{"Returning", "RETURNING " + list, 0, true, del(func(b builder.Delete, v []any_) builder.Delete { return b.Returning(names...) })},
		{"Comment", "; -- " + c, 0, false, del(func(b builder.Delete, v []any_) builder.Delete { return b.Comment(c) })},
	}
}

// anyAlike is a builder of kind k with all clauses but a few, or with the required ones and a few others, all about the
// same name and value.
func anyAlike(k Kind) (b builder.Builder, tmpl string, args []any_) {
	sym.MapOrder(1)
	c, v := anyLetter(), sym.Int64("v")
	h, cs := alike(k, c, sym.Choose("twice", 2) == 1)
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	b = h.New()
	all := sym.Choose("from all", 2) == 1
	changed := 0
	for i, cl := range cs {
		on[i] = all || need(k, cl.Name)
		if !need(k, cl.Name) && changed < sym.Bound(2, 4) && sym.Choose(cl.Name, 2) == 1 {
			changed++
			on[i] = !on[i]
		}
		vs[i] = make([]any_, cl.Marks)
		for j := range vs[i] {
			vs[i][j] = v
		}
		if on[i] {
			b = cl.Apply(b, vs[i])
		}
	}
	tmpl, args = SQLText(h, cs, on, vs)
	return
}

func checkAlike(k Kind, what string) {
	b, tmpl, args := anyAlike(k)
	checkTemplate(b, tmpl, args, what+": clauses all about the same name and value")
}

// Statements whose tables, columns, aliases and values are the same everywhere.
func C01_alike() {
	b, tmpl, _ := anyAlike(Kind(sym.Choose("kind", 4)))
	q, _ := b.Query()
	n, _ := b.NamedQuery()
	sym.Assert(ref.SameSQL(q, ref.Fill(tmpl, dollar)) && ref.SameSQL(n, ref.Fill(tmpl, named)), "C01 nothing but placeholders for values that are the same")
}

// The same value given again is bound again.
func C02_alike() {
	b, tmpl, args := anyAlike(Kind(sym.Choose("kind", 4)))
	checkPlaceholders("the same value everywhere", tmpl, b, make([]bool, len(args)), args)
}

// The same names and numbers in every clause.
func C07_alike() { checkAlike(Kind(sym.Choose("kind", 4)), "C07") }

// Conditions on a column named like everything else.
func C09_alike() { checkAlike([]Kind{kSelect, kUpdate, kDelete}[sym.Choose("kind", 3)], "C09") }

// Assignments to a column named like everything else.
func C12_alike() { checkAlike([]Kind{kInsert, kUpdate}[sym.Choose("kind", 2)], "C12") }

// Rows of columns named like everything else.
func C13_alike() { checkAlike(kInsert, "C13") }

// Targets named like everything else.
func C14_alike() { checkAlike(kInsert, "C14") }

// Joins of a table named like everything else.
func C16_alike() { checkAlike(kSelect, "C16") }

// Subqueries about what the statement is about.
func C23_alike() { checkAlike([]Kind{kSelect, kUpdate}[sym.Choose("kind", 2)], "C23") }

// Lists of names that are all the same.
func C24_alike() { checkAlike(Kind(sym.Choose("kind", 4)), "C24") }

// Fragments named like everything else.
func C27_alike() { checkAlike([]Kind{kSelect, kUpdate}[sym.Choose("kind", 2)], "C27") }

// Any two conditions, whatever they are, joined in any way: both are there, in the order given, under the operator given.
func C10_pairs() {
	cs := anyPair()
	i := sym.Choose("first", len(cs))
	j := sym.Choose("second", len(cs))
	l, r := cs[i], cs[j]
	n := ref.Marks(l.Tmpl)
	args := make([]any_, n+ref.Marks(r.Tmpl))
	for k := range args {
		args[k] = sym.Int64("v")
	}
	a, b := l.Build(args[:n]), r.Build(args[n:])
	op := "AND"
	where := func(s string) string { return `SELECT "x" FROM "t" WHERE ` + s }
	both := func() string { return "(" + l.Tmpl + " " + op + " " + r.Tmpl + ")" }
	s := lk.Select("x").From("t")
	label := "C10 " + l.Name + " and " + r.Name
	switch sym.Choose("form", 7) {
	case 0:
		checkTemplate(s.Where(lk.And(a, b)), where(both()), args, label)
	case 1:
		op = "OR"
		checkTemplate(s.Where(lk.Or(a, b)), where(both()), args, label)
	case 2:
		checkTemplate(s.Where(a).And(b), where(both()), args, label)
	case 3:
		op = "OR"
		checkTemplate(s.Where(a).Or(b), where(both()), args, label)
	case 4:
		checkTemplate(s.Where(a).Where(b), where(both()), args, label)
	case 5, 6:
		and := sym.Choose("and", 2) == 1
		if !and {
			op = "OR"
		}
		var e stmt.Expression
		switch x := a.(type) {
		case stmt.InfixExpression:
			e = x.Or(b)
			if and {
				e = x.And(b)
			}
		case stmt.In:
			e = x.Or(b)
			if and {
				e = x.And(b)
			}
		default:
			return
		}
		checkTemplate(s.Having(e), `SELECT "x" FROM "t" HAVING `+both(), args, label)
	}
}

// anyPair is conditions of every form, those without values too.
func anyPair() []Cond {
	a := func() stmt.Identifier { return lk.Condition("e") }
	return append(conds(),
		Cond{"In nothing", `("e" IN ())`, func(v []any_) stmt.Expression { return a().In(nil) }},
		Cond{"NotIn nothing", `("e" NOT IN ())`, func(v []any_) stmt.Expression { return a().NotIn([]int64(nil)) }},
		Cond{"IsNull", `("e" IS NULL)`, func(v []any_) stmt.Expression { return a().IsNull(true) }},
		Cond{"IsNotNull", `("e" IS NOT NULL)`, func(v []any_) stmt.Expression { return a().IsNull(false) }},
		Cond{"raw operand", `("e" = now())`, func(v []any_) stmt.Expression { return a().Equal(lk.Raw("now()")) }},
		Cond{"columns", `("e" = "e")`, func(v []any_) stmt.Expression { return a().Equal(a()) }},
		Cond{"In one subquery with In nothing", `("e" IN (SELECT "i" FROM "j" WHERE ("k" IN ())))`, func(v []any_) stmt.Expression {
			return a().In(lk.Select("i").From("j").Where(lk.Condition("k").In([]string{})))
		}},
	)
}

// Columns with names made of one another and of the table's: each is a column of its own.
func C12_related() {
	sym.MapOrder(sym.Bound(1, 2))
	target := sym.Choose("target", 3)
	c := anyLetter()
	up := sym.Str("letter", 1)
	sym.Assume(up[0] == c[0]-32)
	names := []string{c, "t." + c, up, "t", c + "." + c, "T." + c, c + c, c + "_", "_" + c, "t." + up, c + ".t", "public.t." + c, c + "1", "t" + c, "k", "t.k"}
	n := sym.Bound(12, len(names))
	var ws []write
	var calls [][]any_
	for i := 0; i < sym.Bound(2, 3); i++ {
		col := names[sym.Choose("name", n)]
		v := any_(sym.Int64("v"))
		ws = append(ws, write{col, v})
		var arg any_ = lk.Pair(col, v)
		switch sym.Choose("form", 3) {
		case 1:
			arg = lk.Map{lk.Column(col): v}
		case 2:
			arg = map[string]interface{}{col: v}
		}
		if i == 0 || target == 0 && sym.Choose("new call", 2) == 1 {
			calls = append(calls, []any_{arg})
		} else {
			calls[len(calls)-1] = append(calls[len(calls)-1], arg)
		}
	}
	checkSet(target, calls, ws, targets[target]+" of columns with names made of one another")
}

// Slices of anything that has elements of any form, given wherever a slice can be: not written to.
func C05_slices() {
	sym.MapOrder(1)
	k := sym.Choose("slice", nSlices+1)
	n := 1 + sym.Choose("length", 3)
	var given any_
	var elems []any_
	if k < nSlices {
		sym.Assume(k != 11 && k != 12) // C20 has slices of floats
		if k > 0 && k <= 10 && n > 1 {
			given = []any_{[]int{3, 1, 2}, []uint{3, 1, 2}, []int8{3, 1, 2}, []int16{3, 1, 2}, []uint16{3, 1, 2}, []int32{3, 1, 2}, []uint32{3, 1, 2},
				[]int64{3, 1, 2}, []uint64{3, 1, 2}, []bool{true, false, true}}[k-1]
		} else {
			given, elems = makeSlice("v", k, n, func(name string) string { return sym.Str(name, 2) })
		}
	}
	other := func(i int) any_ {
		return []any_{nil, subq(5), lk.Raw("now()"), lk.Exists(subq(6)), lk.Condition("id"), stmt.NewCall("f"), []byte{1}, "s", lk.Value(7), []any_{1, 2},
			subq(8).Statement(), stmt.NewWrapper(lk.Raw("1"))}[i]
	}
	switch k {
	case nSlices - 2: // expressions, one of which may be anything
		xs := exprs([]any_{3, "s", true}[:n])
		given, elems = xs, nil
		if e, ok := other(sym.Choose("element", 12)).(stmt.Expression); ok {
			xs[sym.Choose("at", n)] = e
		}
	case nSlices - 1:
		xs := []any_{3, "s", true}[:n]
		xs[sym.Choose("at", n)] = other(sym.Choose("element", 12))
		given, elems = xs, nil
	case nSlices:
		row := make([]any_, n)
		row[sym.Choose("at", n)] = other(sym.Choose("element", 12))
		elems = row
		given = [][]any_{row, row[:n-1], row}
	}
	var g int
	if elems == nil {
		g = sym.Freeze(given)
	} else {
		g = sym.Freeze(given, elems)
	}
	a := lk.Condition("a")
	s := lk.Select("x").From("t")
	fs := []func() builder.Builder{
		func() builder.Builder { return s.Where(a.In(given)) },
		func() builder.Builder { return s.Where(a.NotIn(given)) },
		func() builder.Builder { return s.Where(a.Equal(given)) },
		func() builder.Builder { return s.Where(a.Overlap(given)) },
		func() builder.Builder { return s.Where(a.Contains(lk.Value(given))) },
		func() builder.Builder { return s.Where(a.Between(given, given)) },
		func() builder.Builder { return s.Where(stmt.NewCall("f", stmt.NewExpression(given)).In(given)) },
		func() builder.Builder { return lk.Insert("t").Values(given) },
		func() builder.Builder { return lk.Insert("t").Columns("a", "b").Values(given, given) },
		func() builder.Builder { return lk.Insert("t").Set(lk.Pair("a", given)) },
		func() builder.Builder { return lk.Update("t").Set(lk.Map{"a": given, "b": given}) },
		func() builder.Builder { return lk.Update("t").Set("a", "b").Using(given, given) },
		func() builder.Builder { return lk.Update("t").Set("a").Using(given) },
		func() builder.Builder { return lk.Insert("t").OnConflict("a", lk.DoUpdate(lk.Pair("a", given))) },
		func() builder.Builder { return s.Where(a.In(anys(given)...)) },
		func() builder.Builder { return s.Where(a.NotIn(anys(given)...)) },
		func() builder.Builder { return lk.Insert("t").Values(anys(given)...) },
		func() builder.Builder { return lk.Update("t").Set("a", "b", "c").Using(anys(given)...) },
		func() builder.Builder { return s.Columns(anys(given)...) },
		func() builder.Builder { return s.Columns(given) },
		func() builder.Builder { return lk.Delete("t").Returning(given) },
	}
	form := sym.Choose("form", len(fs))
	sym.Assume(k != 0 || form < len(fs)-3) // C05_names has slices of names
	f := fs[form]
	var b builder.Builder
	ok, _ := Try(func() { b = f() })
	sym.Assert(!sym.Touched(g), "C05 building writes to no slice given to the API, whatever its elements")
	if !ok {
		return
	}
	r := take(b)
	sym.Assert(!sym.Touched(g), "C05 rendering writes to no slice given to the API, whatever its elements")
	ok, _ = Try(func() { take(f()) })
	sym.Assert(ok && take(b).same(r), "C05 builders given the same slice do not disturb each other, whatever its elements")
	sym.Assert(!sym.Touched(g), "C05 a second builder writes to no slice given to the API, whatever its elements")
}

// anys is the slice itself when it is one of anything.
func anys(v any_) []any_ {
	if xs, ok := v.([]any_); ok {
		return xs
	}
	return []any_{v}
}

// samples are values of every kind that can be bound, and some expressions.
func samples() []any_ {
	n, t := int64(12), someTime
	return []any_{"it's", "", true, int(1), int8(-2), int16(3), int32(-4), n, uint(5), uint8(6), uint16(7), uint32(8), uint64(9), float32(1.5), 2.5e30,
		[]byte{1, 0xab}, []byte{}, []byte(nil), t, &t, time.Time{}, sym.Clock(1<<63|4332960000<<30|5, 77, someZone), valuer{"v"}, &valuer{"w"}, &ptrValuer{n}, (*ptrValuer)(nil),
		encStr{"e"}, encInt{n}, encBool{true}, encTime{t}, encStmt{"x"}, []string{"a", "b"}, []int64{1, 2}, map[string]string{"k": "v"}, map[string]interface{}{"k": 1},
		nil, lk.Raw("now()"), lk.Condition("id"), lk.Value(n), subq(n), stmt.NewCall("f", lk.Value("x"))}
}

// Values of every kind, at some places.
func C06_kinds() {
	ps := []Place{places()[0], places()[7], places()[10], places()[17], PlaceFor(conds()[20], 1), PlaceFor(conds()[17], 0)}
	p := ps[sym.Choose("place", len(ps))]
	vs := samples()
	given := make([]any_, ref.Marks(p.Tmpl))
	v := vs[sym.Choose("value", len(vs))]
	at := sym.Choose("at", len(given)+1)
	for i := range given {
		given[i] = v
		if i == at {
			given[i] = 42
		}
	}
	pure(p.Name, p.Build(given), 2, 0)
}
