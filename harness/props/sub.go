package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// subSite is a place a subquery can stand at. In Tmpl, '#' is the text of the subquery and '?' another value.
type subSite struct {
	Name  string
	Tmpl  string
	Build func(s builder.Select, v []any_) builder.Builder
}

// condSites are the places inside a condition.
func condSites() []subSite {
	a := func() stmt.Identifier { return lk.Condition("a") }
	where := func(name, tmpl string, f func(s builder.Select, v []any_) stmt.Expression) subSite {
		return subSite{name, `SELECT "x" FROM "t" WHERE ` + tmpl, func(s builder.Select, v []any_) builder.Builder { return lk.Select("x").From("t").Where(f(s, v)) }}
	}
	type fn func(v any_) stmt.InfixExpression
	op := func(name, o string, f fn) subSite {
		return where(name, `("a" `+o+` (#))`, func(s builder.Select, v []any_) stmt.Expression { return f(s) })
	}
	return []subSite{
		op("Equal", "=", a().Equal), op("NotEqual", "!=", a().NotEqual), op("Is", "IS", a().Is), op("IsNot", "IS NOT", a().IsNot),
		op("GreaterThan", ">", a().GreaterThan), op("GreaterThanOrEqual", ">=", a().GreaterThanOrEqual),
		op("LessThan", "<", a().LessThan), op("LessThanOrEqual", "<=", a().LessThanOrEqual),
		op("Like", "LIKE", a().Like), op("NotLike", "NOT LIKE", a().NotLike), op("ILike", "ILIKE", a().ILike), op("NotILike", "NOT ILIKE", a().NotILike),
		op("IsDistinctFrom", "IS DISTINCT FROM", a().IsDistinctFrom), op("IsNotDistinctFrom", "IS NOT DISTINCT FROM", a().IsNotDistinctFrom),
		op("Contains", "@>", a().Contains), op("IsContainedBy", "<@", a().IsContainedBy), op("Overlap", "&&", a().Overlap),
		where("Value.Equal", `(? = (#))`, func(s builder.Select, v []any_) stmt.Expression { return valueOf(v[0]).Equal(s) }),
		where("Value.NotEqual", `(? != (#))`, func(s builder.Select, v []any_) stmt.Expression { return valueOf(v[0]).NotEqual(s) }),
		where("Value.Contains", `(? @> (#))`, func(s builder.Select, v []any_) stmt.Expression { return valueOf(v[0]).Contains(s) }),
		where("Value.IsContainedBy", `(? <@ (#))`, func(s builder.Select, v []any_) stmt.Expression { return valueOf(v[0]).IsContainedBy(s) }),
		where("Value.Overlap", `(? && (#))`, func(s builder.Select, v []any_) stmt.Expression { return valueOf(v[0]).Overlap(s) }),
		where("Call.Equal", `(f(?) = (#))`, func(s builder.Select, v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).Equal(s) }),
		where("Call.GreaterThan", `(f() > (#))`, func(s builder.Select, v []any_) stmt.Expression { return stmt.NewCall("f").GreaterThan(s) }),
		where("Call.LessThan", `(f(?, ?) < (#))`, func(s builder.Select, v []any_) stmt.Expression {
			return stmt.NewCall("f", exprs(v[:2])...).LessThan(s)
		}),
		where("Call.Like", `(f() LIKE (#))`, func(s builder.Select, v []any_) stmt.Expression { return stmt.NewCall("f").Like(s) }),
		where("Call.ILike", `(f() ILIKE (#))`, func(s builder.Select, v []any_) stmt.Expression { return stmt.NewCall("f").ILike(s) }),
		where("Call.Overlap", `(f() && (#))`, func(s builder.Select, v []any_) stmt.Expression { return stmt.NewCall("f").Overlap(s) }),
		where("Call.In", `(f(?) IN (#))`, func(s builder.Select, v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).In(s) }),
		where("Call argument", `(f((#)) = ?)`, func(s builder.Select, v []any_) stmt.Expression {
			return stmt.NewCall("f", stmt.NewExpression(s)).Equal(v[0])
		}),
		where("Call first argument", `(f((#), ?) = ?)`, func(s builder.Select, v []any_) stmt.Expression {
			return stmt.NewCall("f", stmt.NewExpression(s), stmt.NewExpression(v[0])).Equal(v[1])
		}),
		where("Call last argument", `(f(?, (#)) = ?)`, func(s builder.Select, v []any_) stmt.Expression {
			return stmt.NewCall("f", stmt.NewExpression(v[0]), stmt.NewExpression(s)).Equal(v[1])
		}),
		where("In", `("a" IN (#))`, func(s builder.Select, v []any_) stmt.Expression { return a().In(s) }),
		where("NotIn", `("a" NOT IN (#))`, func(s builder.Select, v []any_) stmt.Expression { return a().NotIn(s) }),
		where("In first", `("a" IN ((#), ?))`, func(s builder.Select, v []any_) stmt.Expression { return a().In(s, v[0]) }),
		where("In middle", `("a" IN (?, (#), ?))`, func(s builder.Select, v []any_) stmt.Expression { return a().In(v[0], s, v[1]) }),
		where("NotIn slice", `("a" NOT IN (?, (#)))`, func(s builder.Select, v []any_) stmt.Expression { return a().NotIn([]any_{v[0], s}) }),
		where("In expressions", `("a" IN ((#), ?))`, func(s builder.Select, v []any_) stmt.Expression {
			return a().In([]stmt.Expression{stmt.NewExpression(s), stmt.NewExpression(v[0])})
		}),
		where("Between from", `("a" BETWEEN (#) AND ?)`, func(s builder.Select, v []any_) stmt.Expression { return a().Between(s, v[0]) }),
		where("Between to", `("a" BETWEEN ? AND (#))`, func(s builder.Select, v []any_) stmt.Expression { return a().Between(v[0], s) }),
		where("NotBetween from", `("a" NOT BETWEEN (#) AND ?)`, func(s builder.Select, v []any_) stmt.Expression { return a().NotBetween(s, v[0]) }),
		where("NotBetween to", `("a" NOT BETWEEN ? AND (#))`, func(s builder.Select, v []any_) stmt.Expression { return a().NotBetween(v[0], s) }),
		where("NotExists", `(NOT EXISTS (#))`, func(s builder.Select, v []any_) stmt.Expression { return lk.NotExists(s) }),
		where("Exists and", `((EXISTS (#)) AND ("a" = ?))`, func(s builder.Select, v []any_) stmt.Expression { return lk.And(lk.Exists(s), eq("a", v[0])) }),
		where("or not Exists", `(("a" = ?) OR (NOT EXISTS (#)))`, func(s builder.Select, v []any_) stmt.Expression {
			return eq("a", v[0]).(stmt.InfixExpression).Or(lk.NotExists(s))
		}),
		where("raw identifier", `(x = (#))`, func(s builder.Select, v []any_) stmt.Expression { return lk.Condition(lk.Raw("x")).Equal(s) }),
		where("expression given", `("a" = (#))`, func(s builder.Select, v []any_) stmt.Expression { return a().Equal(s.Statement()) }),
		where("operands", `((#) = ?)`, func(s builder.Select, v []any_) stmt.Expression {
			return stmt.NewInfixExpression(s.Statement().(stmt.Expression), stmt.NewComparisonOperator("="), stmt.NewExpression(v[0]))
		}),
		where("call in call", `(f(g(?, (#))) = ?)`, func(s builder.Select, v []any_) stmt.Expression {
			return stmt.NewCall("f", stmt.NewCall("g", stmt.NewExpression(v[0]), stmt.NewExpression(s))).Equal(v[1])
		}),
		where("two of them", `(("a" = ?) AND ("b" < (#)))`, func(s builder.Select, v []any_) stmt.Expression {
			return eq("a", v[0]).(stmt.InfixExpression).And(lk.Condition("b").LessThan(s))
		}),
		{"Call in Having", `SELECT "x" FROM "t" HAVING (f(?) > (#))`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Select("x").From("t").Having(stmt.NewCall("f", exprs(v[:1])...).GreaterThan(s))
		}},
	}
}

// stmtSites are the places in the clauses of every statement kind.
func stmtSites() []subSite {
	return []subSite{
		{"Where Exists", `SELECT "x" FROM "t" WHERE (EXISTS (#))`, func(s builder.Select, v []any_) builder.Builder { return lk.Select("x").From("t").Where(lk.Exists(s)) }},
		{"Select Exists", `SELECT EXISTS (#), "y" FROM "t" WHERE ("a" = ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Select(lk.Exists(s), "y").From("t").Where(eq("a", v[0]))
		}},
		{"Select NotExists", `SELECT "y", NOT EXISTS (#) FROM "t"`, func(s builder.Select, v []any_) builder.Builder { return lk.Select("y", lk.NotExists(s)).From("t") }},
		{"Select With", `WITH c AS (#) SELECT "x" FROM "c" WHERE ("a" = ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Select("x").From("c").Where(eq("a", v[0])).With(lk.With("c", s))
		}},
		{"Select second With", `WITH c AS (SELECT "i" FROM "j" WHERE ("k" = ?)), d AS (#) SELECT "x" FROM "c"`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Select("x").From("c").With(lk.With("c", subq(v[0])), lk.With("d", s))
		}},
		{"Having", `SELECT "x" FROM "t" WHERE ("a" = ?) GROUP BY "x" HAVING ("h" = (#)) LIMIT 3`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Select("x").From("t").GroupBy("x").Having(lk.Condition("h").Equal(s)).Where(eq("a", v[0])).Limit(3)
		}},
		{"Insert Values", `INSERT INTO "t" ("a") VALUES ((#))`, func(s builder.Select, v []any_) builder.Builder { return lk.Insert("t").Columns("a").Values(s) }},
		{"Insert Values mixed", `INSERT INTO "t" ("a", "b", "c") VALUES (?, (#), ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b", "c").Values(v[0], s, v[1])
		}},
		{"Insert Values slice", `INSERT INTO "t" ("a", "b") VALUES ((#), ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b").Values([]any_{s, v[0]})
		}},
		{"Insert rows", `INSERT INTO "t" ("a", "b") VALUES (?, ?), ((#), ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b").Values([][]any_{{v[0], v[1]}, {s, v[2]}})
		}},
		{"Insert one column rows", `INSERT INTO "t" ("a") VALUES (?), ((#))`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values([][]any_{{v[0]}, {s}})
		}},
		{"Insert Set", `INSERT INTO "t" ("a", "b") VALUES (?, (#))`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Set(lk.Pair("b", s), lk.Pair("a", v[0]))
		}},
		{"Insert Set one", `INSERT INTO "t" ("a") VALUES ((#))`, func(s builder.Select, v []any_) builder.Builder { return lk.Insert("t").Set(lk.Map{"a": s}) }},
		{"DoUpdate", `INSERT INTO "t" ("a") VALUES (?) ON CONFLICT ("a") DO UPDATE SET "b" = (#), "c" = ?`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(v[0]).OnConflict("a", lk.DoUpdate(lk.Pair("c", v[1]), lk.Pair("b", s)))
		}},
		{"Insert Returning", `INSERT INTO "t" ("a") VALUES (?) RETURNING "a", EXISTS (#)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(v[0]).Returning("a", lk.Exists(s))
		}},
		{"Update Set", `UPDATE "t" SET "a" = (#), "b" = ? WHERE ("c" = ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("b", v[0])).Set(lk.Pair("a", s)).Where(eq("c", v[1]))
		}},
		{"Update Set map", `UPDATE "t" SET "a" = ?, "b" = (#)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Set(map[string]interface{}{"a": v[0], "b": s})
		}},
		{"Update Using", `UPDATE "t" SET ("a", "b") = (#) WHERE ("c" = ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Set("a", "b").Using(s).Where(eq("c", v[0]))
		}},
		{"Update Using element", `UPDATE "t" SET ("a", "b") = (?, (#)) WHERE ("c" = ?)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Set("a", "b").Using(v[0], s).Where(eq("c", v[1]))
		}},
		{"Update With", `WITH c AS (#) UPDATE "t" SET "a" = ?`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[0])).With(lk.With("c", s))
		}},
		{"Update Where", `UPDATE "t" SET "a" = ? WHERE ("b" IN (#))`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Where(lk.Condition("b").In(s)).Set(lk.Pair("a", v[0]))
		}},
		{"Update Returning", `UPDATE "t" SET "a" = ? RETURNING EXISTS (#)`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[0])).Returning(lk.Exists(s))
		}},
		{"Delete Where", `DELETE FROM "t" USING "u" WHERE (("a" = ?) OR ("b" = (#))) RETURNING "r"`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Delete("t").Using("u").Where(eq("a", v[0])).Or(lk.Condition("b").Equal(s)).Returning("r")
		}},
		{"Delete Returning", `DELETE FROM "t" WHERE ("a" = ?) RETURNING NOT EXISTS (#), "r"`, func(s builder.Select, v []any_) builder.Builder {
			return lk.Delete("t").Where(eq("a", v[0])).Returning(lk.NotExists(s), "r")
		}},
	}
}

func subSites() []subSite { return append(condSites(), stmtSites()...) }

// subShape is a subquery of one of several shapes: its own template and the values of its marks.
func subShape(k int) (s builder.Select, tmpl string, args []any_) {
	v := []any_{sym.Int64("inner"), sym.Int64("inner"), sym.Int64("inner")}
	switch k {
	case 0:
		return subq(v[0]), `SELECT "i" FROM "j" WHERE ("k" = ?)`, v[:1]
	case 1:
		return lk.Select("i").From("j"), `SELECT "i" FROM "j"`, nil
	case 2:
		return lk.Select("i", lk.Exists(subq(v[1]))).From("j").With(lk.With("w", subq(v[0]))).Join("l", "ON l.a = j.b").
				Where(lk.Condition("k").In(v[2], lk.Raw("3"))).GroupBy("i").OrderBy(lk.Order("i")).Limit(3).Offset(4).Suffix("FOR SHARE"),
			`WITH w AS (SELECT "i" FROM "j" WHERE ("k" = ?)) SELECT "i", EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)) FROM "j" INNER JOIN "l" ON "l"."a" = "j"."b" WHERE ("k" IN (?, 3)) GROUP BY "i" ORDER BY i ASC LIMIT 3 OFFSET 4 FOR SHARE`, v
	case 3:
		return lk.Select("i").Distinct().From(lk.Table("j").As("jj")).Where(lk.Condition("k").In(subq(v[0]))).Prefix("/*p*/"),
			`/*p*/ SELECT DISTINCT "i" FROM "j" AS "jj" WHERE ("k" IN (SELECT "i" FROM "j" WHERE ("k" = ?)))`, v[:1]
	}
	panic("no such shape")
}

const nSubShapes = 4

// place puts a subquery and n outer values into a site's template.
func (site subSite) place(sub string, subArgs []any_, v []any_) (tmpl string, args []any_) {
	k := 0
	for i := 0; i < len(site.Tmpl); i++ {
		switch site.Tmpl[i] {
		case '#':
			tmpl += sub
			args = append(args, subArgs...)
		case '?':
			tmpl += "?"
			args = append(args, v[k])
			k++
		default:
			tmpl += site.Tmpl[i : i+1]
		}
	}
	return
}

// checkTemplate states that b renders tmpl with args in all three ways (values are compared in Query and NamedQuery only).
func checkTemplate(b builder.Builder, tmpl string, args []any_, label string) {
	s := take(b)
	sym.Observe("query", s.text)
	sym.Assert(s.ok, label+": accepted")
	sym.Assert(ref.SameSQL(s.text, ref.Fill(tmpl, dollar)), label+": text of Query")
	sym.Assert(ref.SameSQL(s.ntext, ref.Fill(tmpl, named)), label+": text of NamedQuery")
	sym.Assert(SameArgs(s.args, args), label+": arguments of Query")
	sym.Assert(len(s.nargs) == len(args), label+": number of named arguments")
	for i := range args {
		v, ok := s.nargs["arg_"+ref.Itoa(i+1)]
		sym.Assert(ok && SameArgs([]any_{v}, args[i:i+1]), label+": named arguments")
	}
}

// outerValues makes three arbitrary values for the other marks of a site.
func outerValues() []any_ { return []any_{sym.Int64("outer"), sym.Int64("outer"), sym.Int64("outer")} }
