package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// checkEmbedded states that a subquery, whose own rendering is given by a template, is embedded whole at a site.
func checkEmbedded(site subSite, s builder.Select, tmpl string, args []any_) {
	v := outerValues()
	full, all := site.place(tmpl, args, v)
	checkTemplate(site.Build(s, v), full, all, "C23 embedded whole: "+site.Name)
}

// Every site, every shape.
func C23_sites() {
	ss := subSites()
	site := ss[sym.Choose("site", len(ss))]
	s, tmpl, args := subShape(sym.Choose("shape", nSubShapes))
	checkEmbedded(site, s, tmpl, args)
}

// Any SELECT: what it renders on its own is what it renders embedded.
func C23_statements() {
	h, cs := clausesOf(kSelect)
	var b builder.Builder = h.New()
	all := sym.Choose("from all", 2) == 1
	changed := 0
	for _, c := range cs {
		if c.Name == "Comment" {
			continue
		}
		on := all || need(kSelect, c.Name)
		if changed < sym.Bound(2, 3) && sym.Choose(c.Name, 2) == 1 {
			changed++
			on = !on
		}
		if on {
			b = c.Apply(b, clauseValues(c))
		}
	}
	own := take(b)
	if !own.ok {
		return
	}
	ss := subSites()
	site := ss[sym.Choose("site", len(ss))]
	checkEmbedded(site, b.(builder.Select), replaceMarks(own.text, func(int) string { return "?" }), own.args)
}

// Any SELECT of two clauses in any of their forms: what it renders on its own is what it renders embedded.
func C23_clauses() {
	v := []any_{sym.Int64("v"), sym.Int64("v")}
	w := []any_{sym.Int64("w"), sym.Int64("w")}
	h, cs := clausesOf(kSelect)
	first, second := sym.Choose("first", len(cs)), sym.Choose("second", len(cs))
	sym.Assume(first < second && cs[second].Name != "Comment")
	b := h.New()
	fs := formsOf(kSelect, cs[first].Name)
	b = fs[sym.Choose("form", len(fs))](b, v)
	fs = formsOf(kSelect, cs[second].Name)
	b = fs[sym.Choose("form", len(fs))](b, w)
	if cs[first].Name != "Columns" && cs[second].Name != "Columns" {
		b = b.(builder.Select).Columns("x")
	}
	own := take(b)
	if !own.ok {
		return
	}
	ss := formSites()
	at := []int{0, 4, 19, 21, 23, 6, 3, 25}[sym.Choose("site", sym.Bound(4, 8))]
	x := outerValues()
	full, all := subSite{Tmpl: ss[at].tmpl}.place(replaceMarks(own.text, func(int) string { return "?" }), own.args, x)
	checkTemplate(ss[at].build(b.(builder.Select), x), full, all, "C23 clauses in any form embedded whole")
}

// embedAt places a subquery with its template into a site, giving an enclosing SELECT with its template.
func embedAt(site subSite, s builder.Select, tmpl string, args []any_) (builder.Select, string, []any_) {
	v := outerValues()
	full, all := site.place(tmpl, args, v)
	return site.Build(s, v).(builder.Select), full, all
}

// Nested two deep: a subquery at any site inside a condition, that at any site.
func C23_nested() {
	s, tmpl, args := subShape(sym.Choose("shape", sym.Bound(1, 2)))
	in := condSites()
	s, tmpl, args = embedAt(in[sym.Choose("inner", len(in))], s, tmpl, args)
	ss := subSites()
	checkEmbedded(ss[sym.Choose("outer", len(ss))], s, tmpl, args)
}

// Nested deeper, every level at the same kind of site.
func C23_deep() {
	s, tmpl, args := subShape(0)
	in := condSites()
	k := sym.Choose("site", len(in))
	depth := sym.Choose("depth", sym.Bound(4, 6)) + 1
	for i := 0; i < depth; i++ {
		site := in[(k+i*sym.Bound(5, 7))%len(in)]
		s, tmpl, args = embedAt(site, s, tmpl, args)
	}
	ss := stmtSites()
	checkEmbedded(ss[sym.Choose("outer", len(ss))], s, tmpl, args)
}

// Two subqueries in one statement.
func C23_two() {
	in := condSites()
	s1, t1, a1 := subShape(sym.Choose("first shape", sym.Bound(2, nSubShapes)))
	s2, t2, a2 := subShape(sym.Choose("second shape", 3))
	site := in[sym.Choose("first", len(in))]
	v, w := outerValues(), outerValues()
	first, all := site.place(t1, a1, v)
	other := stmtSites()
	o := other[sym.Choose("second", len(other))]
	b := site.Build(s1, v).(builder.Select)
	b = b.With(lk.With("c", s2))
	checkTemplate(b, "WITH c AS ("+t2+") "+first, append(append([]any_{}, a2...), all...), "C23 two subqueries")
	outer, args := o.place("WITH c AS ("+t2+") "+first, append(append([]any_{}, a2...), all...), w)
	checkTemplate(o.Build(b, w), outer, args, "C23 two subqueries embedded")
}

const nSubForms = 5

// subForm is a subquery as it can be given.
func subForm(s builder.Select, form int) any_ {
	switch form {
	case 0:
		return s
	case 1:
		return &s
	case 2:
		return s.Statement()
	case 3:
		return encExpr{s.Statement()}
	}
	return exprs([]any_{s})[0]
}

// However the subquery is given: a builder, a pointer, its statement, an expression.
func C23_forms() {
	s, tmpl, args := subShape(sym.Choose("shape", nSubShapes))
	v := outerValues()
	ss := formSites()
	site := ss[sym.Choose("site", len(ss))]
	full, all := subSite{Tmpl: site.tmpl}.place(tmpl, args, v)
	checkTemplate(site.build(subForm(s, sym.Choose("form", nSubForms)), v), full, all, "C23 given in another form")
}

// String() embeds the same text with the literals in place.
func C23_debug() {
	ss := subSites()
	site := ss[sym.Choose("site", len(ss))]
	s := subq(int64(11))
	v := []any_{int64(-1), "two", true}
	full, all := site.place(`SELECT "i" FROM "j" WHERE ("k" = ?)`, []any_{int64(11)}, v)
	want := ref.Fill(full, func(k int) string {
		switch x := all[k].(type) {
		case int64:
			if x == 11 {
				return "11"
			}
			return "-1"
		case string:
			return "'two'"
		}
		return "true"
	})
	got := site.Build(s, v).String()
	sym.Observe("text", got)
	sym.Assert(ref.SameDebug(got, want), "C23 embedded whole in String()")
}

type formSite struct {
	tmpl  string
	build func(s any_, v []any_) builder.Builder
}

// asExpr is a subquery as an expression: itself, if it is one.
func asExpr(s any_) stmt.Expression {
	if e, ok := s.(stmt.Expression); ok {
		return e
	}
	return stmt.NewExpression(s)
}

// formSites are sites that take a subquery in any form.
func formSites() []formSite {
	a := lk.Condition("a")
	sel := func(tmpl string, f func(s any_, v []any_) stmt.Expression) formSite {
		return formSite{`SELECT "x" FROM "t" WHERE ` + tmpl, func(s any_, v []any_) builder.Builder { return lk.Select("x").From("t").Where(f(s, v)) }}
	}
	return []formSite{
		sel(`("a" = (#))`, func(s any_, v []any_) stmt.Expression { return a.Equal(s) }),
		sel(`("a" LIKE (#))`, func(s any_, v []any_) stmt.Expression { return a.Like(s) }),
		sel(`("a" IS NOT DISTINCT FROM (#))`, func(s any_, v []any_) stmt.Expression { return a.IsNotDistinctFrom(s) }),
		sel(`("a" IN (#))`, func(s any_, v []any_) stmt.Expression { return a.In(s) }),
		sel(`("a" NOT IN (?, (#), ?))`, func(s any_, v []any_) stmt.Expression { return a.NotIn(v[0], s, v[1]) }),
		sel(`("a" IN (#))`, func(s any_, v []any_) stmt.Expression { return a.In([]stmt.Expression{asExpr(s)}) }),
		sel(`("a" NOT IN ((#), ?))`, func(s any_, v []any_) stmt.Expression {
			return a.NotIn([]stmt.Expression{asExpr(s), lk.Value(v[0])})
		}),
		sel(`("a" IN (?, (#)))`, func(s any_, v []any_) stmt.Expression { return a.In([]any_{v[0], s}) }),
		sel(`("a" IN ((#), ?))`, func(s any_, v []any_) stmt.Expression { return a.In(stmt.NewArrayExpression(s, v[0])) }),
		sel(`(f((#), ?) = ?)`, func(s any_, v []any_) stmt.Expression {
			return stmt.NewCall("f", asExpr(s), lk.Value(v[0])).Equal(v[1])
		}),
		{`INSERT INTO "t" ("a", "b") VALUES ((#), ?)`, func(s any_, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b").Values([]stmt.Expression{asExpr(s), lk.Value(v[0])})
		}},
		{`INSERT INTO "t" ("a") VALUES ((#))`, func(s any_, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values([]stmt.Expression{asExpr(s)})
		}},
		{`INSERT INTO "t" ("a") VALUES ((#)), (?)`, func(s any_, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values([][]stmt.Expression{{asExpr(s)}, {lk.Value(v[0])}})
		}},
		{`INSERT INTO "t" ("a") VALUES (?), ((#))`, func(s any_, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values([][]any_{{v[0]}, {s}})
		}},
		{`UPDATE "t" SET ("a", "b") = ((#), ?)`, func(s any_, v []any_) builder.Builder {
			return lk.Update("t").Set("a").Set("b").Using(s).Using(v[0])
		}},
		sel(`("a" BETWEEN (#) AND ?)`, func(s any_, v []any_) stmt.Expression { return a.Between(s, v[0]) }),
		sel(`("a" NOT BETWEEN ? AND (#))`, func(s any_, v []any_) stmt.Expression { return a.NotBetween(v[0], s) }),
		sel(`(? @> (#))`, func(s any_, v []any_) stmt.Expression { return valueOf(v[0]).Contains(s) }),
		sel(`(f(?) = (#))`, func(s any_, v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).Equal(s) }),
		sel(`(EXISTS (#))`, func(s any_, v []any_) stmt.Expression { return lk.Exists(s) }),
		sel(`(NOT EXISTS (#))`, func(s any_, v []any_) stmt.Expression { return lk.NotExists(s) }),
		{`WITH c AS (#) SELECT "x" FROM "c"`, func(s any_, v []any_) builder.Builder { return lk.Select("x").From("c").With(lk.With("c", s)) }},
		{`UPDATE "t" SET "a" = (#), "b" = ?`, func(s any_, v []any_) builder.Builder { return lk.Update("t").Set(lk.Map{"a": s, "b": v[0]}) }},
		{`UPDATE "t" SET ("a", "b") = (#)`, func(s any_, v []any_) builder.Builder { return lk.Update("t").Set("a", "b").Using(s) }},
		{`UPDATE "t" SET ("a", "b") = (?, (#))`, func(s any_, v []any_) builder.Builder { return lk.Update("t").Set("a", "b").Using(v[0], s) }},
		{`INSERT INTO "t" ("a", "b") VALUES (?, (#))`, func(s any_, v []any_) builder.Builder { return lk.Insert("t").Columns("a", "b").Values(v[0], s) }},
		{`INSERT INTO "t" ("a") VALUES ((#))`, func(s any_, v []any_) builder.Builder { return lk.Insert("t").Columns("a").Values(s) }},
		{`INSERT INTO "t" ("a") VALUES ((#)) ON CONFLICT ("a") DO UPDATE SET "b" = ?`, func(s any_, v []any_) builder.Builder {
			return lk.Insert("t").Set(lk.Pair("a", s)).OnConflict("a", lk.DoUpdate(lk.Pair("b", v[0])))
		}},
	}
}
