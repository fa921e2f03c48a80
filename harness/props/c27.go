package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// fragSite is a place where a fragment is taken verbatim. Tmpl holds QZ for the fragment and '?' for values.
type fragSite struct {
	Name  string
	Tmpl  string
	Build func(s string, v []any_) builder.Builder
}

// mid is a SELECT with an expression e in the middle of its conditions.
func mid(e func(s string, v []any_) stmt.Expression) func(string, []any_) builder.Builder {
	return func(s string, v []any_) builder.Builder {
		return lk.Select("x").From("t").Where(eq("p", v[0])).And(e(s, v[1:])).And(eq("q", v[len(v)-1]))
	}
}

const midHead, midTail = `SELECT "x" FROM "t" WHERE ((("p" = ?) AND `, `) AND ("q" = ?))`

// column is a SELECT with an expression among its columns, and values around it.
func column(e func(s string) stmt.SelectExpression) func(string, []any_) builder.Builder {
	return func(s string, v []any_) builder.Builder {
		return lk.Select("x", lk.Exists(subq(v[0])), e(s), lk.NotExists(subq(v[1]))).From("t").Where(eq("q", v[2]))
	}
}

func columnTmpl(e string) string {
	return `SELECT "x", EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)), ` + e + `, NOT EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)) FROM "t" WHERE ("q" = ?)`
}

// around is a statement of any kind but SELECT returning an expression.
const subj = `SELECT "i" FROM "j" WHERE ("k" = ?)`

func fragSites() []fragSite {
	order := func(o func(s string) stmt.Order) func(string, []any_) builder.Builder {
		return func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").Where(eq("p", v[0])).OrderBy(lk.Order("o1")).OrderBy(o(s), lk.Order("o3", lk.Desc)).Limit(3).Suffix("FOR UPDATE")
		}
	}
	ordered := func(o string) string {
		return `SELECT "x" FROM "t" WHERE ("p" = ?) ORDER BY o1 ASC, ` + o + `, o3 DESC LIMIT 3 FOR UPDATE`
	}
	return []fragSite{
		// raw fragments
		{"raw column", columnTmpl("QZ"), column(func(s string) stmt.SelectExpression { return lk.Raw(s) })},
		{"raw table", `SELECT "x" FROM "t1", QZ, "t2" WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t1", lk.Raw(s), lk.Table("t2")).Where(eq("p", v[0]))
		}},
		{"raw condition", midHead + "QZ" + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Raw(s) })},
		{"raw left", midHead + "(QZ = ?)" + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition(lk.Raw(s)).Equal(v[0]) })},
		{"raw left of in", midHead + "(QZ IN (?, ?))" + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition(lk.Raw(s)).In(v[0], v[1]) })},
		{"raw left of between", midHead + "(QZ BETWEEN ? AND ?)" + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition(lk.Raw(s)).Between(v[0], v[1]) })},
		{"raw right", midHead + `("a" != QZ)` + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition("a").NotEqual(lk.Raw(s)) })},
		{"raw like", midHead + `("a" LIKE QZ)` + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition("a").Like(lk.Raw(s)) })},
		{"raw from", midHead + `("a" BETWEEN QZ AND ?)` + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition("a").Between(lk.Raw(s), v[0]) })},
		{"raw to", midHead + `("a" NOT BETWEEN ? AND QZ)` + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition("a").NotBetween(v[0], lk.Raw(s)) })},
		{"raw in a list", midHead + `("a" NOT IN (?, QZ, ?))` + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition("a").NotIn(v[0], lk.Raw(s), v[1]) })},
		{"raw alone in a list", midHead + `("a" IN (QZ))` + midTail, mid(func(s string, v []any_) stmt.Expression { return lk.Condition("a").In(lk.Raw(s)) })},
		{"raw argument", midHead + `(f(?, QZ, ?) = ?)` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return stmt.NewCall("f", lk.Value(v[0]), lk.Raw(s), lk.Value(v[1])).Equal(v[2])
		})},
		{"raw in and", midHead + `((QZ AND ("b" = ?)) OR ("c" = ?))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Or(lk.And(lk.Raw(s), eq("b", v[0])), eq("c", v[1]))
		})},
		{"raw having", `SELECT "x" FROM "t" WHERE ("p" = ?) GROUP BY "x" HAVING (QZ > ?) ORDER BY x ASC`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").Where(eq("p", v[0])).GroupBy("x").Having(lk.Condition(lk.Raw(s)).GreaterThan(v[1])).OrderBy(lk.Order("x"))
		}},
		{"raw with", `WITH c1 AS (` + subj + `), c2 AS (QZ), c3 AS (` + subj + `) SELECT "x" FROM "t" WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").With(lk.With("c1", subq(v[0])), lk.With("c2", lk.Raw(s)), lk.With("c3", subq(v[1]))).Where(eq("p", v[2]))
		}},
		{"raw in a subquery", midHead + `("a" IN (SELECT "i" FROM "j" WHERE ((QZ = ?) AND ("k" = ?))))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Condition("a").In(lk.Select("i").From("j").Where(lk.Condition(lk.Raw(s)).Equal(v[0])).And(eq("k", v[1])))
		})},
		{"raw set", `UPDATE "t" SET "a" = ?, "b" = QZ, "c" = ? WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[0]), lk.Pair("b", lk.Raw(s)), lk.Pair("c", v[1])).Where(eq("p", v[2]))
		}},
		{"raw using", `UPDATE "t" SET ("a", "b", "c") = (?, QZ, ?) WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set("a", "b", "c").Using(v[0], lk.Raw(s), v[1]).Where(eq("p", v[2]))
		}},
		{"raw update returning", `UPDATE "t" SET "a" = ? WHERE ("p" = ?) RETURNING "x", QZ, EXISTS (` + subj + `)`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[0])).Where(eq("p", v[1])).Returning("x", lk.Raw(s), lk.Exists(subq(v[2])))
		}},
		{"raw value", `INSERT INTO "t" ("a", "b", "c") VALUES (?, QZ, ?) RETURNING "x"`, func(s string, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b", "c").Values(v[0], lk.Raw(s), v[1]).Returning("x")
		}},
		{"raw in rows", `INSERT INTO "t" ("a", "b") VALUES (?, ?), (QZ, ?), (?, ?)`, func(s string, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b").Values([][]interface{}{{v[0], v[1]}, {lk.Raw(s), v[2]}, {v[3], v[4]}})
		}},
		{"raw pair", `INSERT INTO "t" ("a", "b", "c") VALUES (?, QZ, ?)`, func(s string, v []any_) builder.Builder {
			return lk.Insert("t").Set(lk.Pair("a", v[0]), lk.Pair("b", lk.Raw(s)), lk.Pair("c", v[1]))
		}},
		{"raw on conflict", `INSERT INTO "t" ("a") VALUES (?) ON CONFLICT ("a") DO UPDATE SET "a" = ?, "b" = QZ, "c" = ? RETURNING "x"`, func(s string, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(v[0]).OnConflict("a", lk.DoUpdate(lk.Pair("a", v[1]), lk.Pair("b", lk.Raw(s)), lk.Pair("c", v[2]))).Returning("x")
		}},
		{"raw insert returning", `INSERT INTO "t" ("a") VALUES (?) RETURNING QZ, "x"`, func(s string, v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(v[0]).Returning(lk.Raw(s), "x")
		}},
		{"raw delete", `DELETE FROM "t", QZ USING "u", "w" WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Delete(stmt.NewFrom([]stmt.Statement{lk.Table("t"), lk.Raw(s)})).Using("u", "w").Where(eq("p", v[0]))
		}},
		{"raw delete condition", `DELETE FROM "t" WHERE (("p" = ?) OR QZ) RETURNING "x"`, func(s string, v []any_) builder.Builder {
			return lk.Delete("t").Where(eq("p", v[0])).Or(lk.Raw(s)).Returning("x")
		}},
		{"raw delete returning", `DELETE FROM "t" WHERE ("p" = ?) RETURNING EXISTS (` + subj + `), QZ`, func(s string, v []any_) builder.Builder {
			return lk.Delete("t").Where(eq("p", v[0])).Returning(lk.Exists(subq(v[1])), lk.Raw(s))
		}},
		{"raw update condition", `UPDATE "t" SET "a" = ? FROM "u" WHERE (QZ AND ("p" = ?))`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[0])).From("u").Where(lk.Raw(s)).And(eq("p", v[1]))
		}},
		// prefixes and suffixes
		{"prefix", `QZ WITH c AS (` + subj + `) SELECT "x" FROM "t" WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").Where(eq("p", v[1])).With(lk.With("c", subq(v[0]))).Prefix(s)
		}},
		{"prefix statement", `QZ SELECT DISTINCT "x" FROM "t" WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").Distinct().From("t").Prefix(stmt.NewPrefix(s)).Where(eq("p", v[0]))
		}},
		{"suffix", `SELECT "x" FROM "t" WHERE ("p" = ?) ORDER BY x ASC LIMIT 5 OFFSET 6 QZ`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").Suffix(s).Where(eq("p", v[0])).Limit(5).Offset(6).OrderBy(lk.Order("x"))
		}},
		{"suffix statement", `SELECT "x" FROM "t" QZ`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").Suffix(stmt.NewSuffix(s))
		}},
		{"prefix of a subquery", midHead + `("a" = (QZ SELECT "i" FROM "j" WHERE ("k" = ?)))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Condition("a").Equal(lk.Select("i").From("j").Prefix(s).Where(eq("k", v[0])))
		})},
		{"suffix of a subquery", midHead + `("a" IN (SELECT "i" FROM "j" WHERE ("k" = ?) QZ))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Condition("a").In(lk.Select("i").From("j").Suffix(s).Where(eq("k", v[0])))
		})},
		{"suffix of a CTE", `WITH c AS (SELECT "i" FROM "j" WHERE ("k" = ?) QZ) UPDATE "t" SET "a" = ?`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[1])).With(lk.With("c", lk.Select("i").From("j").Where(eq("k", v[0])).Suffix(s)))
		}},
		// orders
		{"order", ordered("QZ ASC"), order(func(s string) stmt.Order { return lk.Order(s) })},
		{"order asc", ordered("QZ ASC"), order(func(s string) stmt.Order { return lk.Order(s, lk.Asc) })},
		{"order desc", ordered("QZ DESC"), order(func(s string) stmt.Order { return lk.Order(s, lk.Desc) })},
		{"new order", ordered("QZ DESC"), order(func(s string) stmt.Order { return stmt.NewOrder(s, types.Desc) })},
		{"column asc", ordered("QZ ASC"), order(func(s string) stmt.Order { return lk.Column(s).Asc() })},
		{"column desc", ordered("QZ DESC"), order(func(s string) stmt.Order { return lk.Column(s).Desc() })},
		{"alias asc", ordered("QZ ASC"), order(func(s string) stmt.Order { return lk.Column("c").As(s).Asc() })},
		{"alias desc", ordered("QZ DESC"), order(func(s string) stmt.Order { return lk.Column("c").As(s).Desc() })},
		{"order of a subquery", midHead + `("a" = (SELECT "i" FROM "j" WHERE ("k" = ?) ORDER BY QZ DESC LIMIT 1))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Condition("a").Equal(lk.Select("i").From("j").OrderBy(lk.Order(s, lk.Desc)).Where(eq("k", v[0])).Limit(1))
		})},
		// aggregates
		{"count", columnTmpl("COUNT(QZ)"), column(func(s string) stmt.SelectExpression { return lk.Count(s) })},
		{"count distinct", columnTmpl("COUNT(DISTINCT QZ)"), column(func(s string) stmt.SelectExpression { return lk.Count(s).Distinct(true) })},
		{"count not distinct", columnTmpl("COUNT(QZ)"), column(func(s string) stmt.SelectExpression { return lk.Count(s).Distinct(true).Distinct(false) })},
		{"count with alias", columnTmpl("COUNT(QZ) AS n"), column(func(s string) stmt.SelectExpression { return lk.Count(s).As("n") })},
		{"count alias", columnTmpl("COUNT(e) AS QZ"), column(func(s string) stmt.SelectExpression { return lk.Count("e").As(s) })},
		{"count distinct alias", columnTmpl("COUNT(DISTINCT e) AS QZ"), column(func(s string) stmt.SelectExpression { return lk.Count("e").As("n").Distinct(true).As(s) })},
		{"max", columnTmpl("MAX(QZ)"), column(func(s string) stmt.SelectExpression { return lk.Max(s) })},
		{"max with alias", columnTmpl("MAX(QZ) AS n"), column(func(s string) stmt.SelectExpression { return lk.Max(s).As("n") })},
		{"max alias", columnTmpl("MAX(e) AS QZ"), column(func(s string) stmt.SelectExpression { return lk.Max("e").As(s) })},
		{"min", columnTmpl("MIN(QZ)"), column(func(s string) stmt.SelectExpression { return lk.Min(s) })},
		{"min with alias", columnTmpl("MIN(QZ) AS n"), column(func(s string) stmt.SelectExpression { return lk.Min(s).As("n") })},
		{"min alias", columnTmpl("MIN(e) AS QZ"), column(func(s string) stmt.SelectExpression { return lk.Min("e").As(s) })},
		{"sum", columnTmpl("SUM(QZ)"), column(func(s string) stmt.SelectExpression { return lk.Sum(s) })},
		{"sum with alias", columnTmpl("SUM(QZ) AS n"), column(func(s string) stmt.SelectExpression { return lk.Sum(s).As("n") })},
		{"sum alias", columnTmpl("SUM(e) AS QZ"), column(func(s string) stmt.SelectExpression { return lk.Sum("e").As(s) })},
		{"returned count", `DELETE FROM "t" WHERE ("p" = ?) RETURNING "x", COUNT(DISTINCT QZ) AS n, "y"`, func(s string, v []any_) builder.Builder {
			return lk.Delete("t").Where(eq("p", v[0])).Returning("x", lk.Count(s).Distinct(true).As("n"), "y")
		}},
		// functions and CTE names
		{"function", midHead + `(QZ(?) = ?)` + midTail, mid(func(s string, v []any_) stmt.Expression { return stmt.NewCall(s, lk.Value(v[0])).Equal(v[1]) })},
		{"function without argument", midHead + `(QZ() < ?)` + midTail, mid(func(s string, v []any_) stmt.Expression { return stmt.NewCall(s).LessThan(v[0]) })},
		{"function in function", midHead + `(f(?, QZ(?, ?), ?) IN (?, ?))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return stmt.NewCall("f", lk.Value(v[0]), stmt.NewCall(s, lk.Value(v[1]), lk.Value(v[2])), lk.Value(v[3])).In(v[4], v[5])
		})},
		{"function as operand", midHead + `("a" = QZ(?))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Condition("a").Equal(stmt.NewCall(s, lk.Value(v[0])))
		})},
		{"function as value", `UPDATE "t" SET "a" = ?, "b" = QZ(?, ?), "c" = ?`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[0]), lk.Pair("b", stmt.NewCall(s, lk.Value(v[1]), lk.Value(v[2]))), lk.Pair("c", v[3]))
		}},
		{"CTE name", `WITH c1 AS (` + subj + `), QZ AS (` + subj + `), c3 AS (` + subj + `) SELECT "x" FROM "t" WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Select("x").From("t").With(lk.With("c1", subq(v[0]))).With(lk.With(s, subq(v[1])), lk.With("c3", subq(v[2]))).Where(eq("p", v[3]))
		}},
		{"CTE name of an update", `WITH QZ AS (` + subj + `) UPDATE "t" SET "a" = ? WHERE ("p" = ?)`, func(s string, v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[1])).Where(eq("p", v[2])).With(lk.With(s, subq(v[0])))
		}},
		{"CTE name in a subquery", midHead + `("a" IN (WITH QZ AS (` + subj + `) SELECT "m" FROM "c" WHERE ("n" = ?)))` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return lk.Condition("a").In(lk.Select("m").From("c").Where(eq("n", v[1])).With(lk.With(s, subq(v[0]))))
		})},
		// operators and kinds given by name
		{"operator", midHead + `("a" QZ ?)` + midTail, mid(func(s string, v []any_) stmt.Expression {
			return stmt.NewInfixExpression(lk.Condition("a"), stmt.NewComparisonOperator(types.ComparisonOperator(s)), lk.Value(v[0]))
		})},
	}
}

// split divides a text at the single QZ in it.
func split(s string) (head, tail string, ok bool) {
	i := strings.Index(s, "QZ")
	if i < 0 || strings.Index(s[i+2:], "QZ") >= 0 {
		return "", "", false
	}
	return s[:i], s[i+2:], true
}

// checkFragment states that the text of f is that of "QZ" but for the fragment, in all three forms, with the same
// values, and that the rest is what the template says.
func checkFragment(build func(s string, v []any_) builder.Builder, tmpl, f, label string) {
	n := ref.Marks(tmpl)
	v, plain := make([]any_, n), make([]any_, n)
	for i := range v {
		v[i] = sym.Int64("value")
		plain[i] = 1000 + i
	}
	twin := build("QZ", v)
	checkTemplate(twin, tmpl, v, label+": around the fragment")
	w, g := take(twin), take(build(f, v))
	sym.Observe("query", g.text)
	sym.Assert(g.ok, label+": accepted")
	head, tail, ok := split(w.text)
	sym.Assert(ok && g.text == head+f+tail, label+": verbatim in Query")
	nhead, ntail, nok := split(w.ntext)
	sym.Assert(nok && g.ntext == nhead+f+ntail, label+": verbatim in NamedQuery")
	sym.Assert(SameArgs(g.args, v), label+": values of Query")
	sym.Assert(len(g.nargs) == n, label+": number of values of NamedQuery")
	for i := range v {
		sym.Assert(SameArgs([]any_{g.nargs["arg_"+ref.Itoa(i+1)]}, v[i:i+1]), label+": values of NamedQuery")
	}
	shead, stail, sok := split(build("QZ", plain).String())
	sym.Assert(sok && build(f, plain).String() == shead+f+stail, label+": verbatim in String")
	sym.Assert(ref.SameDebug(shead+"QZ"+stail, ref.Fill(tmpl, func(i int) string { return ref.Itoa(1000 + i) })), label+": around the fragment in String")
}

// Any string as a fragment, at every site.
func C27_sites() {
	ss := fragSites()
	s := ss[sym.Choose("site", len(ss))]
	checkFragment(s.Build, s.Tmpl, sym.Str("fragment", 1+sym.Choose("length", sym.Bound(4, 10))), "C27 "+s.Name)
}

// Fragments that look like something loukoum could want to handle, with arbitrary surroundings.
func C27_lookalikes() {
	ss := fragSites()
	s := ss[sym.Choose("site", len(ss))]
	words := []string{":arg_1", "$1 $2", "?", "%s%d", "  a  b  ", "a,b", `"a"."b"`, "a AS b", "E'\\n'", "NULL", "-- c", "/* ? */", "SELECT 1", "a\nb", "(", "null", "\x00", "é", "{{.}}", "DISTINCT x", "x ASC"}
	w := words[sym.Choose("word", len(words))]
	a, b := sym.Choose("before", 2), sym.Choose("after", 2)
	checkFragment(s.Build, s.Tmpl, sym.Str("before", a)+w+sym.Str("after", b), "C27 look-alike at "+s.Name)
}

// Two fragments, at two sites of one statement.
func C27_two() {
	f, g := sym.Str("first", 1+sym.Choose("length", 2)), sym.Str("second", 1+sym.Choose("length", 2))
	type two struct {
		name string
		tmpl string
		make func(f, g string, v []any_) builder.Builder
	}
	all := []two{
		{"prefix and suffix", `QZ SELECT "x" FROM "t" WHERE ("p" = ?) QY`, func(f, g string, v []any_) builder.Builder {
			return lk.Select("x").From("t").Prefix(f).Suffix(g).Where(eq("p", v[0]))
		}},
		{"orders", `SELECT "x" FROM "t" WHERE ("p" = ?) ORDER BY QZ DESC, QY ASC`, func(f, g string, v []any_) builder.Builder {
			return lk.Select("x").From("t").OrderBy(lk.Order(f, lk.Desc), lk.Order(g)).Where(eq("p", v[0]))
		}},
		{"count and alias", `SELECT COUNT(DISTINCT QZ) AS QY FROM "t" WHERE ("p" = ?)`, func(f, g string, v []any_) builder.Builder {
			return lk.Select(lk.Count(f).As(g).Distinct(true)).From("t").Where(eq("p", v[0]))
		}},
		{"max and alias", `SELECT MAX(QZ) AS QY FROM "t"`, func(f, g string, v []any_) builder.Builder { return lk.Select(lk.Max(f).As(g)).From("t") }},
		{"min and alias", `SELECT MIN(QZ) AS QY FROM "t"`, func(f, g string, v []any_) builder.Builder { return lk.Select(lk.Min(f).As(g)).From("t") }},
		{"sum and alias", `SELECT SUM(QZ) AS QY FROM "t"`, func(f, g string, v []any_) builder.Builder { return lk.Select(lk.Sum(f).As(g)).From("t") }},
		{"two aggregates", `SELECT MAX(QZ), MIN(QY) FROM "t"`, func(f, g string, v []any_) builder.Builder { return lk.Select(lk.Max(f), lk.Min(g)).From("t") }},
		{"CTE names", `WITH QZ AS (` + subj + `), QY AS (` + subj + `) SELECT "x" FROM "t"`, func(f, g string, v []any_) builder.Builder {
			return lk.Select("x").From("t").With(lk.With(f, subq(v[0])), lk.With(g, subq(v[1])))
		}},
		{"functions", midHead + `(QZ(?) = QY(?))` + midTail, func(f, g string, v []any_) builder.Builder {
			return mid(func(s string, v []any_) stmt.Expression {
				return stmt.NewCall(f, lk.Value(v[0])).Equal(stmt.NewCall(g, lk.Value(v[1])))
			})("", v)
		}},
		{"raws", midHead + `(QZ = QY)` + midTail, func(f, g string, v []any_) builder.Builder {
			return mid(func(s string, v []any_) stmt.Expression { return lk.Condition(lk.Raw(f)).Equal(lk.Raw(g)) })("", v)
		}},
		{"columns and raw", `SELECT QZ, "x", QY FROM "t"`, func(f, g string, v []any_) builder.Builder { return lk.Select(lk.Raw(f), "x", lk.Raw(g)).From("t") }},
		{"raw rows", `INSERT INTO "t" VALUES (QZ, ?), (?, QY)`, func(f, g string, v []any_) builder.Builder {
			return lk.Insert("t").Values([][]interface{}{{lk.Raw(f), v[0]}, {v[1], lk.Raw(g)}})
		}},
	}
	c := all[sym.Choose("case", len(all))]
	v := make([]any_, ref.Marks(c.tmpl))
	for i := range v {
		v[i] = sym.Int64("value")
	}
	twin := c.make("QZ", "QY", v)
	checkTemplate(twin, c.tmpl, v, "C27 around the fragments: "+c.name)
	w, r := take(twin), take(c.make(f, g, v))
	sym.Observe("query", r.text)
	head, rest, ok := split(w.text)
	i := strings.Index(rest, "QY")
	sym.Assert(ok && i >= 0 && r.text == head+f+rest[:i]+g+rest[i+2:], "C27 both fragments verbatim: "+c.name)
	sym.Assert(SameArgs(r.args, v), "C27 values around two fragments: "+c.name)
}

// Every combination of modifiers on the elements of a SELECT.
func C27_modifiers() {
	q := `SELECT`
	b := builder.NewSelect()
	on := func(name string) bool { return sym.Choose(name, 2) == 1 }
	distinct := on("distinct")
	if distinct {
		b = b.Distinct()
		q += ` DISTINCT`
	}
	c, cx := lk.Column("a"), ` "a"`
	if on("column alias") {
		c, cx = c.As("za"), ` "a" AS "za"`
	}
	n, nx := lk.Count("n"), `COUNT(n)`
	cd, ca := on("count distinct"), on("count alias")
	if ca {
		n = n.As("zn")
	}
	if cd {
		n, nx = n.Distinct(true), `COUNT(DISTINCT n)`
	}
	if ca {
		nx += ` AS zn`
	}
	m, mx := lk.Max("m"), `MAX(m)`
	if on("max alias") {
		m, mx = m.As("zm"), mx+` AS zm`
	}
	b = b.Columns(c, n, "b", m)
	q += cx + `, ` + nx + `, "b", ` + mx + ` FROM `
	t, tx := lk.Table("t"), `"t"`
	to, ta := on("only"), on("table alias")
	if ta {
		t, tx = t.As("zt"), tx+` AS "zt"`
	}
	if to {
		t, tx = t.Only(), `ONLY `+tx
	}
	u, ux := lk.Table("u"), `"u"`
	if on("second only") {
		u, ux = u.Only(), `ONLY "u"`
	}
	b = b.From(t, u, "w")
	q += tx + `, ` + ux + `, "w"`
	dir := func(name string) (types.OrderType, string) {
		if on(name) {
			return lk.Desc, " DESC"
		}
		return lk.Asc, " ASC"
	}
	d1, x1 := dir("first")
	d2, x2 := dir("second")
	d3, x3 := dir("third")
	b = b.OrderBy(lk.Order("o1", d1), lk.Order("o2", d2)).OrderBy(lk.Order("o3", d3))
	q += ` ORDER BY o1` + x1 + `, o2` + x2 + `, o3` + x3
	checkPlain(b, q, "C27 modifiers affect their element only")
}

// Modifiers make modified copies: what they were called on stays as it was, and the last call wins.
func C27_copies() {
	f, g := sym.Str("alias", sym.Choose("length", 3)), sym.Str("other", 1+sym.Choose("length", 2))
	as := func(kw string, a string, q bool) string {
		if a == "" {
			return ""
		}
		if q {
			return kw + ref.Quote(a)
		}
		return kw + a
	}
	// The text of unquoted aliases is arbitrary: these are compared as they come.
	sel := func(e stmt.SelectExpression) string { return lk.Select(e).From("t").String() }
	switch sym.Choose("element", 9) {
	case 0:
		c := lk.Column("a")
		d := c.As(f)
		e := d.As(g)
		sym.Assert(ref.SameSQL(sel(c), `SELECT "a" FROM "t"`), "C27 As leaves the column as it is")
		sym.Assert(ref.SameSQL(sel(d), `SELECT "a"`+as(" AS ", f, true)+` FROM "t"`), "C27 As leaves the aliased column as it is")
		sym.Assert(ref.SameSQL(sel(e), `SELECT "a" AS `+ref.Quote(g)+` FROM "t"`), "C27 the last alias of a column")
	case 1:
		t := lk.Table("a")
		d := t.As(f)
		o := d.Only()
		e := o.As(g)
		tab := func(x stmt.Table) string { return lk.Select("x").From(x).String() }
		sym.Assert(ref.SameSQL(tab(t), `SELECT "x" FROM "a"`), "C27 As leaves the table as it is")
		sym.Assert(ref.SameSQL(tab(d), `SELECT "x" FROM "a"`+as(" AS ", f, true)), "C27 Only leaves the table as it is")
		sym.Assert(ref.SameSQL(tab(o), `SELECT "x" FROM ONLY "a"`+as(" AS ", f, true)), "C27 Only adds to the alias")
		sym.Assert(ref.SameSQL(tab(e), `SELECT "x" FROM ONLY "a" AS `+ref.Quote(g)), "C27 the last alias of a table")
		sym.Assert(ref.SameSQL(tab(t.Only()), `SELECT "x" FROM ONLY "a"`), "C27 Only")
	case 2:
		c := lk.Count("a")
		d := c.As(f)
		e := d.Distinct(true)
		h := e.Distinct(false).As(g)
		sym.Assert(ref.SameSQL(sel(c), `SELECT COUNT(a) FROM "t"`), "C27 As leaves the count as it is")
		plain := `SELECT COUNT(a)` + as(" AS ", f, false) + ` FROM "t"`
		sym.Assert(sel(d) == plain, "C27 Distinct leaves the count as it is")
		sym.Assert(sel(e) == `SELECT COUNT(DISTINCT a)`+as(" AS ", f, false)+` FROM "t"`, "C27 Distinct adds to the alias")
		sym.Assert(sel(h) == `SELECT COUNT(a) AS `+g+` FROM "t"`, "C27 the last alias of a count")
	case 3:
		c := lk.Max("a")
		d := c.As(f)
		sym.Assert(ref.SameSQL(sel(c), `SELECT MAX(a) FROM "t"`), "C27 As leaves the max as it is")
		sym.Assert(sel(d) == `SELECT MAX(a)`+as(" AS ", f, false)+` FROM "t"`, "C27 alias of a max")
		sym.Assert(sel(d.As(g)) == `SELECT MAX(a) AS `+g+` FROM "t"`, "C27 the last alias of a max")
	case 4:
		c := lk.Min("a")
		d := c.As(f)
		sym.Assert(ref.SameSQL(sel(c), `SELECT MIN(a) FROM "t"`), "C27 As leaves the min as it is")
		sym.Assert(sel(d) == `SELECT MIN(a)`+as(" AS ", f, false)+` FROM "t"`, "C27 alias of a min")
		sym.Assert(sel(d.As(g)) == `SELECT MIN(a) AS `+g+` FROM "t"`, "C27 the last alias of a min")
	case 5:
		c := lk.Sum("a")
		d := c.As(f)
		sym.Assert(ref.SameSQL(sel(c), `SELECT SUM(a) FROM "t"`), "C27 As leaves the sum as it is")
		sym.Assert(sel(d) == `SELECT SUM(a)`+as(" AS ", f, false)+` FROM "t"`, "C27 alias of a sum")
		sym.Assert(sel(d.As(g)) == `SELECT SUM(a) AS `+g+` FROM "t"`, "C27 the last alias of a sum")
	case 6:
		c := lk.Column(g).As(f)
		want := g
		if f != "" {
			want = f
		}
		o := func(x stmt.Order) string { return lk.Select("x").From("t").OrderBy(x).String() }
		a, d := c.Asc(), c.Desc()
		sym.Assert(o(a) == `SELECT "x" FROM "t" ORDER BY `+want+` ASC`, "C27 ascending column")
		sym.Assert(o(d) == `SELECT "x" FROM "t" ORDER BY `+want+` DESC`, "C27 descending column")
		sym.Assert(ref.SameSQL(sel(c), `SELECT `+ref.Quote(g)+as(" AS ", f, true)+` FROM "t"`), "C27 ordering leaves the column as it is")
	case 7:
		t := lk.Table("t").As(g)
		b := lk.Update(t)
		o := b.Only()
		w := lk.Update(t.Only())
		set := lk.Pair("a", lk.Raw("1"))
		plain, only := `UPDATE "t" AS `+ref.Quote(g)+` SET "a" = 1`, `UPDATE ONLY "t" AS `+ref.Quote(g)+` SET "a" = 1`
		sym.Assert(ref.SameSQL(b.Set(set).String(), plain), "C27 Only leaves the update as it is")
		sym.Assert(ref.SameSQL(o.Set(set).String(), only), "C27 Only of an update")
		sym.Assert(ref.SameSQL(o.Only().Set(set).String(), only), "C27 Only twice")
		sym.Assert(ref.SameSQL(w.Set(set).String(), only), "C27 update of an only table")
		sym.Assert(ref.SameSQL(w.Only().Set(set).Only().String(), only), "C27 Only of an update of an only table")
		sym.Assert(ref.SameSQL(lk.Select("x").From(t).String(), `SELECT "x" FROM "t" AS `+ref.Quote(g)), "C27 Only of an update leaves the table as it is")
	case 8:
		s := lk.Select("a").From("t")
		d := s.Distinct()
		in := lk.Select("x").From("u").Where(lk.Condition("y").In(d)).And(lk.Condition("z").In(s))
		sym.Assert(ref.SameSQL(s.String(), `SELECT "a" FROM "t"`), "C27 Distinct leaves the query as it is")
		sym.Assert(ref.SameSQL(d.Distinct().String(), `SELECT DISTINCT "a" FROM "t"`), "C27 Distinct twice")
		sym.Assert(ref.SameSQL(in.String(), `SELECT "x" FROM "u" WHERE (("y" IN (SELECT DISTINCT "a" FROM "t")) AND ("z" IN (SELECT "a" FROM "t")))`), "C27 Distinct of a subquery")
	}
}
