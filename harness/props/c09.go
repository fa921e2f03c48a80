package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

const (
	nGood = 18
	nBad  = 22
)

// goodCond is a defined condition whose first identifier is col.
func goodCond(k int, col string, v any_) stmt.Expression {
	c := lk.Condition(col)
	switch k {
	case 0:
		return c.Equal(v)
	case 1:
		return c.In(v, v)
	case 2:
		return c.Between(v, v)
	case 3:
		return lk.Exists(lk.Select(col).From("s").Where(eq("k", v)))
	case 4:
		return c
	case 5:
		return c.IsNull(true)
	case 6:
		return c.In()
	case 7:
		return stmt.NewCall("f", c).Equal(v)
	case 9:
		return c.NotIn()
	case 10:
		return c.In([]int{})
	case 11:
		return lk.On(col, col)
	case 12:
		return c.Like("")
	case 13:
		return c.NotIn([]string{})
	case 14:
		return c.IsDistinctFrom(nil)
	case 15:
		return c.Equal(c)
	case 16:
		return lk.On(col, "d")
	case 17:
		return c.NotEqual(lk.Raw(col))
	}
	return lk.NotExists(lk.Select(col).From("s").Where(eq("k", v)))
}

// badCond is a condition that is nil or names nothing; good is a defined condition to combine it with.
func badCond(k int, good stmt.Expression, v any_) stmt.Expression {
	empty := lk.Condition("")
	switch k {
	case 0:
		return nil
	case 1:
		return empty.Equal(v)
	case 2:
		return empty.In(v, v)
	case 3:
		return empty.NotBetween(v, v)
	case 4:
		return empty
	case 5:
		return stmt.InfixExpression{}
	case 6:
		return stmt.In{}
	case 7:
		return stmt.Between{}
	case 8:
		return lk.Raw("")
	case 9:
		return lk.Condition(lk.Raw("")).LessThan(v)
	case 10:
		return lk.And(good, empty.Equal(v))
	case 11:
		return lk.Or(empty.Equal(v), good)
	case 12:
		return lk.And(good, nil)
	case 13:
		return lk.Or(nil, good)
	case 14:
		return lk.And(good, lk.Or(good, empty.IsNull(true)))
	case 15:
		return lk.Condition(nil).Equal(v)
	case 16:
		return lk.Condition(42).Equal(v)
	case 17:
		return lk.Condition(lk.Column("a")).Equal(v)
	case 18:
		return lk.Condition("a").Equal(lk.Condition(""))
	case 19:
		return lk.Condition("a").In(lk.Condition(""), v)
	case 20:
		return lk.Condition("a").Between(lk.Condition(""), v)
	}
	return lk.Exists(lk.Condition(""))
}

// filterer is a statement with conditions.
func where(b builder.Builder, how int, c stmt.Expression) builder.Builder {
	switch x := b.(type) {
	case builder.Select:
		switch how {
		case 0:
			return x.Where(c)
		case 1:
			return x.And(c)
		}
		return x.Or(c)
	case builder.Update:
		switch how {
		case 0:
			return x.Where(c)
		case 1:
			return x.And(c)
		}
		return x.Or(c)
	case builder.Delete:
		switch how {
		case 0:
			return x.Where(c)
		case 1:
			return x.And(c)
		}
		return x.Or(c)
	}
	panic("kind")
}

func filterable(k int) builder.Builder {
	switch k {
	case 0:
		return lk.Select("x").From("t")
	case 1:
		return lk.Update("t").Set(lk.Pair("a", 1))
	}
	return lk.Delete("t")
}

// conditionText returns the tokens of the condition of a clause.
func conditionText(q, clause string) []ref.Tok {
	return ref.After(ref.Lex(q), clause, "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "FOR", "RETURNING")
}

// Any sequence of Where, And and Or, with defined conditions of any form: all of them are there, in order.
func C09_sequences() {
	b := filterable(sym.Choose("statement", 3))
	n := 1 + sym.Choose("n", sym.Bound(4, 5))
	at := 0 // only one of three conditions or more has another form than the simplest
	if n > 2 {
		at = sym.Choose("at", n)
	}
	want := ""
	for i := 0; i < n; i++ {
		how := sym.Choose("method", 3)
		col := "c" + ref.Itoa(i)
		form := 0
		if n < 3 || i == at {
			form = sym.Choose("form", nGood)
		}
		c := goodCond(form, col, sym.Int64("v"))
		var d builder.Builder
		ok, _ := Try(func() { d = where(b, how, c) })
		if !ok {
			sym.Assert(i == 0 && how != 0, "C09 a defined condition is accepted")
			return
		}
		b = d
		switch {
		case i == 0:
			want = col
		case how == 2:
			want = "(" + want + " OR " + col + ")"
		default:
			want = "(" + want + " AND " + col + ")"
		}
	}
	s := take(b)
	sym.Assert(s.ok, "C09 renders")
	sym.Observe("query", s.text)
	got, ok := ref.Tree(conditionText(s.text, "WHERE"))
	sym.Assert(ok && got == want, "C09 every condition given is there, in order")
	got, ok = ref.Tree(conditionText(s.ntext, "WHERE"))
	sym.Assert(ok && got == want, "C09 every condition given is there, in order (named)")
}

// One undefined condition anywhere in such a sequence: some call panics, or the rendering does.
func C09_undefined() {
	b := filterable(sym.Choose("statement", 3))
	n := 1 + sym.Choose("n", sym.Bound(3, 4))
	at := sym.Choose("at", n)
	bad := sym.Choose("undefined", nBad)
	v := sym.Int64("v")
	ok, _ := Try(func() {
		for i := 0; i < n; i++ {
			how := sym.Choose("method", 3)
			c := goodCond(0, "c"+ref.Itoa(i), v)
			if i == at {
				c = badCond(bad, c, v)
			}
			b = where(b, how, c)
		}
	})
	if !ok {
		sym.Cover("refused by the call")
		return
	}
	sym.Cover("refused by the rendering")
	sym.Assert(refused(func() { b.Query() }), "C09 an undefined condition is refused (Query)")
	sym.Assert(refused(func() { b.NamedQuery() }), "C09 an undefined condition is refused (NamedQuery)")
	sym.Assert(refused(func() { _ = b.String() }), "C09 an undefined condition is refused (String)")
}

// HAVING.
func C09_having() {
	v := sym.Int64("v")
	b := lk.Select("x").From("t").GroupBy("x")
	if sym.Choose("where", 2) == 1 {
		b = b.Where(eq("w", v))
	}
	if sym.Choose("defined", 2) == 1 {
		c := goodCond(sym.Choose("form", nGood), "c0", v)
		d := goodCond(sym.Choose("form", nGood), "c1", v)
		want := ""
		switch sym.Choose("tree", 3) {
		case 0:
			b, want = b.Having(c), "c0"
		case 1:
			b, want = b.Having(lk.And(c, d)), "(c0 AND c1)"
		case 2:
			b, want = b.Having(lk.Or(c, d)), "(c0 OR c1)"
		}
		s := take(b)
		got, ok := ref.Tree(conditionText(s.text, "HAVING"))
		sym.Assert(s.ok && ok && got == want, "C09 the HAVING condition is there")
		return
	}
	k := sym.Choose("undefined", nBad)
	sym.Assert(refused(func() { b.Having(badCond(k, eq("c0", v), v)).Query() }), "C09 an undefined HAVING condition is refused")
}

// Conditions on a column whose name is any string: refused exactly when it is empty.
func C09_names() {
	n := sym.Str("name", sym.Choose("length", sym.Bound(3, 5)))
	b := filterable(sym.Choose("statement", 3))
	c := lk.Condition(n).Equal(lk.Raw("1"))
	var q string
	if sym.Choose("first", 2) == 1 {
		ok, _ := Try(func() { q, _ = where(b, 0, c).Query() })
		sym.Assert(ok == (n != ""), "C09 a condition on a named column is accepted")
		sym.Assert(!ok || ref.Same(conditionText(q, "WHERE"), ref.Lex("("+ref.Quote(n)+" = 1)")), "C09 a condition on a named column is rendered")
		return
	}
	how := sym.Choose("method", 3)
	ok, _ := Try(func() { q, _ = where(where(b, 0, eq("z", lk.Raw("2"))), how, c).Query() })
	sym.Assert(ok == (n != ""), "C09 a further condition on a named column is accepted")
	op := []string{"AND", "AND", "OR"}[how]
	sym.Assert(!ok || ref.Same(conditionText(q, "WHERE"), ref.Lex(`(("z" = 2) `+op+" ("+ref.Quote(n)+" = 1))")), "C09 a further condition on a named column is rendered")
}

// Raw conditions of any text, possibly the same or equal to a constant: each is there as often as it was given.
func C09_raw() {
	k := sym.Choose("statement", 4)
	n := 1 + sym.Choose("n", 3)
	fs := make([]string, n)
	size := []int{1, 3, 4, 5, 7}[sym.Choose("length", sym.Bound(4, 5))]
	hows := make([]int, n)
	for i := range fs {
		fs[i] = sym.Str("raw", size)
		if i > 0 {
			hows[i] = sym.Choose("method", 5)
		}
	}
	build := func(fs []string) builder.Builder {
		var c stmt.Expression = lk.Raw(fs[0])
		var b builder.Builder
		if k < 3 {
			b = where(filterable(k), 0, c)
		}
		for i := 1; i < n; i++ {
			f := lk.Raw(fs[i])
			h := hows[i]
			if k == 3 {
				h = h%2 + 3
			}
			switch h {
			case 3:
				c = lk.And(c, f)
			case 4:
				c = lk.Or(c, f)
			default:
				b = where(b, h, f)
				continue
			}
			if k < 3 {
				b = where(b, 1, c)
			}
		}
		if k == 3 {
			b = lk.Select("x").From("t").GroupBy("x").Having(c)
		}
		return b
	}
	marks := []string{"QX", "QY", "QZ"}[:n]
	w, g := take(build(marks)), take(build(fs))
	sym.Assert(w.ok && g.ok, "C09 raw conditions are accepted")
	sym.Observe("query", g.text)
	for _, m := range marks {
		sym.Assert(strings.Contains(w.text, m), "C09 every raw condition is there")
	}
	put := func(s string) string {
		out := ""
		for i := 0; i < len(s); i++ {
			if s[i] == 'Q' && i+1 < len(s) && s[i+1] >= 'X' {
				out += fs[s[i+1]-'X']
				i++
				continue
			}
			out += s[i : i+1]
		}
		return out
	}
	sym.Assert(g.text == put(w.text) && g.ntext == put(w.ntext), "C09 raw conditions are there, whatever their text")
}

// The same condition given twice, on columns of any name with any value: it is there twice.
func C09_repeated() {
	n := 2 + sym.Choose("n", 2)
	b := filterable(sym.Choose("statement", 3))
	same := sym.Choose("form", nGood)
	want := ""
	for i := 0; i < n; i++ {
		how := sym.Choose("method", 3)
		if i == 0 {
			how = 0
		}
		col := anyColumn(1)
		b = where(b, how, goodCond(same, col, sym.Int64("v")))
		switch {
		case i == 0:
			want = col
		case how == 2:
			want = "(" + want + " OR " + col + ")"
		default:
			want = "(" + want + " AND " + col + ")"
		}
	}
	s := take(b)
	sym.Assert(s.ok, "C09 renders")
	got, ok := ref.Tree(conditionText(s.text, "WHERE"))
	sym.Assert(ok && got == want, "C09 conditions that may be equal are all there")
}

var _ = types.And

// anyCond is a condition of one of the simplest forms with arbitrary contents: its template and the values it binds.
func anyCond(k int) (stmt.Expression, string, []any_) {
	switch k {
	case 0:
		v := sym.Bool("value")
		return lk.Value(v), "?", []any_{v}
	case 1:
		v := sym.Int64("value")
		return lk.Value(v), "?", []any_{v}
	case 2:
		v := sym.Text("value", 0, 12)
		return lk.Value(v), "?", []any_{v}
	case 3:
		return lk.Value(nil), "NULL", nil
	case 4:
		v := sym.Bool("value")
		return lk.Condition("a").Equal(v), `("a" = ?)`, []any_{v}
	case 5:
		v := sym.Int64("value")
		return lk.Value(v).Equal(v), "(? = ?)", []any_{v, v}
	case 6:
		return lk.Condition("a"), `"a"`, nil
	case 7:
		return lk.Condition("a").IsNull(true), `("a" IS NULL)`, nil
	case 8:
		return lk.Condition("a").In(), `("a" IN ())`, nil
	case 9:
		v := sym.Text("value", 0, 12)
		return lk.Condition("a").In(v), `("a" IN (?))`, []any_{v}
	case 10:
		return stmt.NewCall("f"), "f()", nil
	case 11:
		v := sym.Int64("value")
		return lk.And(lk.Value(v), lk.Value(true)), "(? AND ?)", []any_{v, true}
	case 12:
		v := sym.Float64("value")
		return lk.Or(lk.Raw("1=0"), lk.Value(v)), "(1=0 OR ?)", []any_{v}
	}
	v, w := sym.Int64("value"), sym.Int64("value")
	return lk.Condition("a").Between(v, w), `("a" BETWEEN ? AND ?)`, []any_{v, w}
}

const nAnyConds = 14

// Conditions that may be constant, whatever the constant, next to each other in any way.
func C09_values() {
	k := sym.Choose("statement", 4)
	n := 1 + sym.Choose("n", sym.Bound(2, 3))
	var b builder.Builder
	if k < 3 {
		b = filterable(k)
	}
	var having stmt.Expression
	want := ""
	var args []any_
	if k == 1 {
		args = []any_{1}
	}
	for i := 0; i < n; i++ {
		c, tmpl, vs := anyCond(sym.Choose("condition", nAnyConds))
		args = append(args, vs...)
		how := 0
		if i > 0 {
			how = sym.Choose("method", 3)
		}
		switch {
		case k < 3:
			b = where(b, how, c)
		case i == 0:
			having = c
		case how == 2:
			having = lk.Or(having, c)
		default:
			having = lk.And(having, c)
		}
		switch {
		case i == 0:
			want = tmpl
		case how == 2:
			want = "(" + want + " OR " + tmpl + ")"
		default:
			want = "(" + want + " AND " + tmpl + ")"
		}
	}
	head := []string{`SELECT "x" FROM "t" WHERE `, `UPDATE "t" SET "a" = ? WHERE `, `DELETE FROM "t" WHERE `, `SELECT "x" FROM "t" GROUP BY "x" HAVING `}[k]
	if k == 3 {
		b = lk.Select("x").From("t").GroupBy("x").Having(having)
	}
	checkTemplate(b, head+want, args, "C09 constant conditions are there")
}
