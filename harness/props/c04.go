package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// nameSite is a place that takes a name. In Tmpl, '?' is where the identifier denoting it must appear.
type nameSite struct {
	Name  string
	Trim  bool // a string argument, split on commas and trimmed before it is a name
	Tmpl  string
	Build func(n string) builder.Builder
}

func nameSites() []nameSite {
	x := func() builder.Select { return lk.Select("x").From("t") }
	return []nameSite{
		{"Select(string)", true, `SELECT ? FROM "t"`, func(n string) builder.Builder { return lk.Select(n).From("t") }},
		{"Select([]string)", true, `SELECT "a", ? FROM "t"`, func(n string) builder.Builder { return lk.Select([]string{"a", n}).From("t") }},
		{"Select(Column)", false, `SELECT ? FROM "t"`, func(n string) builder.Builder { return lk.Select(lk.Column(n)).From("t") }},
		{"Select([]Column)", false, `SELECT ?, "b" FROM "t"`, func(n string) builder.Builder {
			return lk.Select([]stmt.Column{lk.Column(n), lk.Column("b")}).From("t")
		}},
		{"Column.As", false, `SELECT "a" AS ?, "b" FROM "t"`, func(n string) builder.Builder { return lk.Select(lk.Column("a").As(n), "b").From("t") }},
		{"Column.As.Column", false, `SELECT ? AS "z" FROM "t"`, func(n string) builder.Builder { return lk.Select(lk.Column(n).As("z")).From("t") }},
		{"DistinctOn", true, `SELECT DISTINCT ON (?, "b") "x" FROM "t"`, func(n string) builder.Builder { return x().DistinctOn(n, "b") }},
		{"DistinctOn(Column)", false, `SELECT DISTINCT ON (?) "x" FROM "t"`, func(n string) builder.Builder { return x().DistinctOn(lk.Column(n)) }},
		{"From(string)", false, `SELECT "x" FROM ?`, func(n string) builder.Builder { return lk.Select("x").From(n) }},
		{"From(Table)", false, `SELECT "x" FROM "a", ?`, func(n string) builder.Builder { return lk.Select("x").From("a", lk.Table(n)) }},
		{"From(Table.As)", false, `SELECT "x" FROM "a" AS ?`, func(n string) builder.Builder { return lk.Select("x").From(lk.Table("a").As(n)) }},
		{"From(Only)", false, `SELECT "x" FROM ONLY ?`, func(n string) builder.Builder { return lk.Select("x").From(lk.Table(n).Only()) }},
		{"Join table", false, `SELECT "x" FROM "t" INNER JOIN ? ON "a" = "b"`, func(n string) builder.Builder { return x().Join(n, "ON a = b") }},
		{"Join Table", false, `SELECT "x" FROM "t" LEFT JOIN ? ON "a" = "b"`, func(n string) builder.Builder {
			return x().Join(lk.Table(n), lk.On("a", "b"), lk.LeftJoin)
		}},
		{"Join Table.As", false, `SELECT "x" FROM "t" INNER JOIN "u" AS ? ON "a" = "b"`, func(n string) builder.Builder {
			return x().Join(lk.Table("u").As(n), lk.On("a", "b"))
		}},
		{"On left", false, `SELECT "x" FROM "t" INNER JOIN "u" ON ? = "b"`, func(n string) builder.Builder { return x().Join("u", lk.On(n, "b")) }},
		{"On right", false, `SELECT "x" FROM "t" INNER JOIN "u" ON ("a" = ? AND "c" = "d")`, func(n string) builder.Builder {
			return x().Join("u", lk.AndOn(lk.On("a", n), lk.On("c", "d")))
		}},
		{"Join(stmt)", false, `SELECT "x" FROM "t" RIGHT JOIN ? ON "a" = "b"`, func(n string) builder.Builder {
			return x().Join(stmt.NewRightJoin(lk.Table(n), lk.On("a", "b")))
		}},
		{"Condition", false, `SELECT "x" FROM "t" WHERE (? = 1)`, func(n string) builder.Builder { return x().Where(lk.Condition(n).Equal(lk.Raw("1"))) }},
		{"Condition operand", false, `SELECT "x" FROM "t" WHERE ("a" < ?)`, func(n string) builder.Builder {
			return x().Where(lk.Condition("a").LessThan(lk.Condition(n)))
		}},
		{"Condition.In", false, `SELECT "x" FROM "t" WHERE (? IN (1, ?))`, func(n string) builder.Builder {
			return x().Where(lk.Condition(n).In(lk.Raw("1"), lk.Condition(n)))
		}},
		{"Condition.Between", false, `DELETE FROM "t" WHERE (? NOT BETWEEN 1 AND ?)`, func(n string) builder.Builder {
			return lk.Delete("t").Where(lk.Condition(n).NotBetween(lk.Raw("1"), lk.Condition(n)))
		}},
		{"Having", false, `SELECT "x" FROM "t" HAVING (? IS NULL)`, func(n string) builder.Builder { return x().Having(lk.Condition(n).IsNull(true)) }},
		{"GroupBy", true, `SELECT "x" FROM "t" GROUP BY "a", ?`, func(n string) builder.Builder { return x().GroupBy("a", n) }},
		{"GroupBy(Column)", false, `SELECT "x" FROM "t" GROUP BY ?`, func(n string) builder.Builder { return x().GroupBy(lk.Column(n)) }},
		{"Insert into", false, `INSERT INTO ?`, func(n string) builder.Builder { return lk.Insert(n) }},
		{"Insert into Table", false, `INSERT INTO ?`, func(n string) builder.Builder { return lk.Insert(lk.Table(n)) }},
		{"Insert columns", true, `INSERT INTO "t" ("a", ?) VALUES (1, 2)`, func(n string) builder.Builder {
			return lk.Insert("t").Columns("a", n).Values(lk.Raw("1"), lk.Raw("2"))
		}},
		{"Insert Column", false, `INSERT INTO "t" (?) VALUES (1)`, func(n string) builder.Builder { return lk.Insert("t").Columns(lk.Column(n)).Values(lk.Raw("1")) }},
		{"Insert Set", true, `INSERT INTO "t" (?) VALUES (1)`, func(n string) builder.Builder { return lk.Insert("t").Set(lk.Map{n: lk.Raw("1")}) }},
		{"Insert Returning", true, `INSERT INTO "t" RETURNING ?, "b"`, func(n string) builder.Builder { return lk.Insert("t").Returning(n, "b") }},
		{"OnConflict", true, `INSERT INTO "t" ON CONFLICT (?, "b") DO NOTHING`, func(n string) builder.Builder { return lk.Insert("t").OnConflict(n, "b", lk.DoNothing()) }},
		{"OnConflict(Column)", false, `INSERT INTO "t" ON CONFLICT ("b", ?) DO UPDATE SET ? = 1`, func(n string) builder.Builder {
			return lk.Insert("t").OnConflict("b", lk.Column(n), lk.DoUpdate(lk.Pair(lk.Column(n), lk.Raw("1"))))
		}},
		{"Update", false, `UPDATE ? SET "a" = 1`, func(n string) builder.Builder { return lk.Update(n).Set(lk.Pair("a", lk.Raw("1"))) }},
		{"Update Table.As", false, `UPDATE "t" AS ? SET "a" = 1`, func(n string) builder.Builder {
			return lk.Update(lk.Table("t").As(n)).Set(lk.Pair("a", lk.Raw("1")))
		}},
		{"Update Set(Pair)", true, `UPDATE "t" SET ? = 1`, func(n string) builder.Builder { return lk.Update("t").Set(lk.Pair(n, lk.Raw("1"))) }},
		{"Update Set(map)", true, `UPDATE "t" SET ? = 1`, func(n string) builder.Builder {
			return lk.Update("t").Set(map[string]interface{}{n: lk.Raw("1")})
		}},
		{"Update Set(Map Column)", false, `UPDATE "t" SET ? = 1`, func(n string) builder.Builder { return lk.Update("t").Set(lk.Map{lk.Column(n): lk.Raw("1")}) }},
		{"Update Using", true, `UPDATE "t" SET ("a", ?) = (1, 2)`, func(n string) builder.Builder {
			return lk.Update("t").Set("a", n).Using(lk.Raw("1"), lk.Raw("2"))
		}},
		{"Update From", false, `UPDATE "t" SET "a" = 1 FROM ?`, func(n string) builder.Builder { return lk.Update("t").Set(lk.Pair("a", lk.Raw("1"))).From(n) }},
		{"Update Returning", false, `UPDATE "t" SET "a" = 1 RETURNING ?`, func(n string) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", lk.Raw("1"))).Returning(lk.Column(n))
		}},
		{"Delete", false, `DELETE FROM ?`, func(n string) builder.Builder { return lk.Delete(n) }},
		{"Delete Only", false, `DELETE FROM ONLY ?`, func(n string) builder.Builder { return lk.Delete(lk.Table(n).Only()) }},
		{"Delete Using", false, `DELETE FROM "t" USING "a", ?`, func(n string) builder.Builder { return lk.Delete("t").Using("a", n) }},
		{"Delete Using Table.As", false, `DELETE FROM "t" USING "a" AS ?`, func(n string) builder.Builder { return lk.Delete("t").Using(lk.Table("a").As(n)) }},
		{"Delete Returning", true, `DELETE FROM "t" RETURNING ?`, func(n string) builder.Builder { return lk.Delete("t").Returning(n) }},
	}
}

// trimmedName restricts n to names a string argument can carry: no comma, no white space at either end.
func trimmedName(n string) {
	for i := 0; i < len(n); i++ {
		sym.Assume(n[i] != ',')
	}
	for _, c := range []byte{n[0], n[len(n)-1]} {
		sym.Assume(c > ' ' && c < 0x80)
	}
}

func checkName(s nameSite, n string) {
	want := ref.Fill(s.Tmpl, func(int) string { return ref.Quote(n) })
	b := s.Build(n)
	q, _ := b.Query()
	nq, _ := b.NamedQuery()
	sym.Observe("query", q)
	sym.Assert(ref.SameSQL(q, want), "C04 the name is one delimited identifier denoting it (Query): "+s.Name)
	sym.Assert(ref.SameSQL(nq, want), "C04 the name is one delimited identifier denoting it (NamedQuery): "+s.Name)
	sym.Assert(ref.SameSQL(b.String(), want), "C04 the name is one delimited identifier denoting it (String): "+s.Name)
}

// Any name of up to 3 (thorough: 4) bytes at every place that takes a name.
func C04_sites() {
	ss := nameSites()
	s := ss[sym.Choose("site", len(ss))]
	n := sym.Str("name", 1+sym.Choose("length", sym.Bound(4, 6)))
	if s.Trim {
		trimmedName(n)
	}
	checkName(s, n)
}

// Read back with PostgreSQL's lexical rules: exactly the parts of the name, nothing more.
func C04_lexed() {
	n := sym.Str("name", sym.Choose("length", sym.Bound(5, 7)))
	q, _ := lk.Select(lk.Column("p." + n)).Query()
	ts := ref.Lex(q)
	sym.Assert(len(ts) >= 4 && ts[0].Kind == 'w' && ts[0].Text == "SELECT", "C04 the statement keeps its own tokens around a name")
	got := ""
	for i, t := range ts[1:] {
		if i%2 == 0 {
			sym.Assert(t.Kind == 'q', "C04 each part of a name is one delimited identifier")
			got += t.Text
		} else {
			sym.Assert(t.Kind == 'o' && t.Text == ".", "C04 the parts of a name are separated by dots")
			got += "."
		}
	}
	sym.Assert(got == "p."+n, "C04 the identifiers read back denote the given name")
}

// Longer names, at one site of each way of naming things.
func C04_long() {
	ss := nameSites()
	s := ss[[]int{2, 4, 8, 18, 44}[sym.Choose("site", 5)]]
	checkName(s, sym.Str("name", sym.Bound(7, 9)))
}

// Names longer than any identifier the server keeps, at every site: arbitrary bytes at both ends and around the middle.
func C04_very_long() {
	ss := nameSites()
	s := ss[sym.Choose("site", len(ss))]
	n := []int{12, 31, 60, 61, 62, 125, 253}[sym.Choose("length", sym.Bound(6, 7))]
	form := sym.Choose("form", 3)
	fill := repeat("n", n/2)
	name := ""
	switch form {
	case 0:
		name = "p" + fill + sym.Str("middle", 2) + fill + "q"
	case 1:
		name = sym.Str("first", 1) + fill + fill + sym.Str("last", 2)
	case 2: // parts of its own length
		name = "p." + fill + fill + "." + sym.Str("last", 2)
	}
	if s.Trim {
		trimmedName(name)
	}
	checkName(s, name)
}

// Names of several words, mixed case, reserved words, with arbitrary bytes next to them.
func C04_words() {
	ss := nameSites()
	s := ss[sym.Choose("site", len(ss))]
	words := []string{"user", "ORDER", "Id", "a b", "public.user", "t.*", "count(x)", "a AS b", "a as b", "$1", ":arg_1", "?", "a::text", "a,b", "(a)", "a'b", "1a", "é", "a\n", "--", "a;b"}
	w := words[sym.Choose("word", len(words))]
	switch sym.Choose("form", 3) {
	case 1:
		w += sym.Str("after", 1)
	case 2:
		w = sym.Str("before", 1) + w
	}
	if s.Trim {
		trimmedName(w)
	}
	checkName(s, w)
}

// Names of several parts of which some may be the same as others: a table, its alias, its columns.
func C04_related() {
	part := func(n int) string {
		s := sym.Str("name", n)
		for i := 0; i < n; i++ {
			sym.Assume(s[i] == '.' || s[i] >= 'a' && s[i] <= 'd')
		}
		return s
	}
	t, a, c := part(1), part(1), part(3)
	T, A, C := ref.Quote(t), ref.Quote(a), ref.Quote(c)
	var b builder.Builder
	want := ""
	one := lk.Raw("1")
	switch sym.Choose("statement", 7) {
	case 0:
		b = lk.Select(c, lk.Column(c).As(a)).From(t).Where(lk.Condition(c).Equal(lk.Condition(a)))
		want = `SELECT ` + C + `, ` + C + ` AS ` + A + ` FROM ` + T + ` WHERE (` + C + ` = ` + A + `)`
	case 1:
		b = lk.Select(lk.Column(c).As(c)).From(lk.Table(t).As(a)).GroupBy(c).Having(lk.Condition(c).IsNull(true))
		want = `SELECT ` + C + ` AS ` + C + ` FROM ` + T + ` AS ` + A + ` GROUP BY ` + C + ` HAVING (` + C + ` IS NULL)`
	case 2:
		b = lk.Select("x").From(t).Join(lk.Table(t).As(a), lk.On(c, a+"."+t))
		want = `SELECT "x" FROM ` + T + ` INNER JOIN ` + T + ` AS ` + A + ` ON ` + C + ` = ` + ref.Quote(a+"."+t)
	case 3:
		b = lk.Update(lk.Table(t).As(a)).Set(lk.Pair(c, one)).From(t).Where(lk.Condition(c).Equal(one)).Returning(c)
		want = `UPDATE ` + T + ` AS ` + A + ` SET ` + C + ` = 1 FROM ` + T + ` WHERE (` + C + ` = 1) RETURNING ` + C
	case 4:
		b = lk.Update(t).Set(c, a).Using(one, one)
		want = `UPDATE ` + T + ` SET (` + C + `, ` + A + `) = (1, 1)`
	case 5:
		b = lk.Delete(lk.Table(t).As(a)).Using(t, a).Where(lk.Condition(c).Equal(lk.Condition(t+"."+c))).Returning(c, lk.Column(a))
		want = `DELETE FROM ` + T + ` AS ` + A + ` USING ` + T + `, ` + A + ` WHERE (` + C + ` = ` + ref.Quote(t+"."+c) + `) RETURNING ` + C + `, ` + A
	case 6:
		b = lk.Insert(t).Columns(c, a).Values(one, one).OnConflict(a, lk.DoUpdate(lk.Pair(c, one))).Returning(a, c)
		want = `INSERT INTO ` + T + ` (` + C + `, ` + A + `) VALUES (1, 1) ON CONFLICT (` + A + `) DO UPDATE SET ` + C + ` = 1 RETURNING ` + A + `, ` + C
	}
	checkPlain(b, want, "C04 names that may be the same as others")
}
