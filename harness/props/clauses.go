package props

import (
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
)

// Kind is a statement kind.
type Kind int

const (
	kSelect Kind = iota
	kInsert
	kUpdate
	kDelete
)

// Clause is one clause of a statement kind. Frag is its text, with '?' for values; clauses are listed in SQL order.
type Clause struct {
	Name  string
	Frag  string
	Marks int
	Once  bool // single-valued: a second definition is refused
	Apply func(b builder.Builder, v []any_) builder.Builder
}

func sel(f func(b builder.Select, v []any_) builder.Select) func(builder.Builder, []any_) builder.Builder {
	return func(b builder.Builder, v []any_) builder.Builder { return f(b.(builder.Select), v) }
}
func ins(f func(b builder.Insert, v []any_) builder.Insert) func(builder.Builder, []any_) builder.Builder {
	return func(b builder.Builder, v []any_) builder.Builder { return f(b.(builder.Insert), v) }
}
func upd(f func(b builder.Update, v []any_) builder.Update) func(builder.Builder, []any_) builder.Builder {
	return func(b builder.Builder, v []any_) builder.Builder { return f(b.(builder.Update), v) }
}
func del(f func(b builder.Delete, v []any_) builder.Delete) func(builder.Builder, []any_) builder.Builder {
	return func(b builder.Builder, v []any_) builder.Builder { return f(b.(builder.Delete), v) }
}

// Head is the text before clause number at (in SQL order), which is always there.
type Head struct {
	At   int
	Text string
	New  func() builder.Builder
}

func clausesOf(k Kind) (Head, []Clause) {
	switch k {
	case kSelect:
		return Head{2, "SELECT", func() builder.Builder { return builder.NewSelect() }}, []Clause{
			{"Prefix", `EXPLAIN`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Prefix("EXPLAIN") })},
			{"With", `WITH c1 AS (SELECT "i" FROM "j" WHERE ("k" = ?))`, 1, false, sel(func(b builder.Select, v []any_) builder.Select { return b.With(lk.With("c1", subq(v[0]))) })},
			{"DistinctOn", `DISTINCT ON ("d1", "d2")`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.DistinctOn("d1", "d2") })},
			{"Distinct", `DISTINCT`, 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Distinct() })},
			{"Columns", `"x", EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?))`, 1, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Columns("x", lk.Exists(subq(v[0]))) })},
			{"From", `FROM "t1", "t2"`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.From("t1", "t2") })},
			{"Join", `LEFT JOIN "ju" ON "t1"."id" = "ju"."id"`, 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Join("ju", "ON t1.id = ju.id", lk.LeftJoin) })},
			{"Where", `WHERE ("wa" = ?)`, 1, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Where(eq("wa", v[0])) })},
			{"GroupBy", `GROUP BY "g1", "g2"`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.GroupBy("g1", "g2") })},
			{"Having", `HAVING ("ha" > ?)`, 1, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Having(lk.Condition("ha").GreaterThan(v[0])) })},
			{"OrderBy", `ORDER BY o1 ASC, o2 DESC`, 0, false, sel(func(b builder.Select, v []any_) builder.Select {
				return b.OrderBy(lk.Order("o1"), lk.Order("o2", lk.Desc))
			})},
			{"Limit", `LIMIT 11`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Limit(11) })},
			{"Offset", `OFFSET 22`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Offset(22) })},
			{"Suffix", `FOR UPDATE`, 0, true, sel(func(b builder.Select, v []any_) builder.Select { return b.Suffix("FOR UPDATE") })},
			{"Comment", `; -- note`, 0, false, sel(func(b builder.Select, v []any_) builder.Select { return b.Comment("note") })},
		}
	case kInsert:
		return Head{0, "INSERT", func() builder.Builder { return builder.NewInsert() }}, []Clause{
			{"Into", `INTO "t"`, 0, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Into("t") })},
			{"Columns", `("a", "b")`, 0, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Columns("a", "b") })},
			{"Values", `VALUES (?, ?)`, 2, true, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values(v[0], v[1]) })},
			{"OnConflict", `ON CONFLICT ("a") DO UPDATE SET "b" = ?`, 1, true, ins(func(b builder.Insert, v []any_) builder.Insert {
				return b.OnConflict("a", lk.DoUpdate(lk.Pair("b", v[0])))
			})},
			{"Returning", `RETURNING "r1", EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?))`, 1, true, ins(func(b builder.Insert, v []any_) builder.Insert {
				return b.Returning("r1", lk.Exists(subq(v[0])))
			})},
			{"Comment", `; -- note`, 0, false, ins(func(b builder.Insert, v []any_) builder.Insert { return b.Comment("note") })},
		}
	case kUpdate:
		return Head{1, "UPDATE", func() builder.Builder { return lk.Update("t") }}, []Clause{
			{"With", `WITH c1 AS (SELECT "i" FROM "j" WHERE ("k" = ?))`, 1, false, upd(func(b builder.Update, v []any_) builder.Update { return b.With(lk.With("c1", subq(v[0]))) })},
			{"Only", `ONLY`, 0, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Only() })},
			{"Set", `"t" SET "a" = ?, "b" = ?`, 2, false, upd(func(b builder.Update, v []any_) builder.Update {
				return b.Set(lk.Pair("b", v[1]), lk.Pair("a", v[0]))
			})},
			{"From", `FROM "u"`, 0, true, upd(func(b builder.Update, v []any_) builder.Update { return b.From("u") })},
			{"Where", `WHERE ("wa" = ?)`, 1, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Where(eq("wa", v[0])) })},
			{"Returning", `RETURNING "r1", EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?))`, 1, true, upd(func(b builder.Update, v []any_) builder.Update {
				return b.Returning("r1", lk.Exists(subq(v[0])))
			})},
			{"Comment", `; -- note`, 0, false, upd(func(b builder.Update, v []any_) builder.Update { return b.Comment("note") })},
		}
	}
	return Head{0, "DELETE", func() builder.Builder { return builder.NewDelete() }}, []Clause{
		{"From", `FROM "t1", "t2"`, 0, true, del(func(b builder.Delete, v []any_) builder.Delete { return b.From("t1", "t2") })},
		{"Using", `USING "u1", "u2"`, 0, true, del(func(b builder.Delete, v []any_) builder.Delete { return b.Using("u1", "u2") })},
		{"Where", `WHERE ("wa" = ?)`, 1, false, del(func(b builder.Delete, v []any_) builder.Delete { return b.Where(eq("wa", v[0])) })},
		{"Returning", `RETURNING "r1", EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?))`, 1, true, del(func(b builder.Delete, v []any_) builder.Delete {
			return b.Returning("r1", lk.Exists(subq(v[0])))
		})},
		{"Comment", `; -- note`, 0, false, del(func(b builder.Delete, v []any_) builder.Delete { return b.Comment("note") })},
	}
}

// need tells whether a clause is required for the statement to render.
func need(k Kind, name string) bool {
	switch k {
	case kSelect:
		return name == "Columns"
	case kInsert:
		return name == "Into"
	case kUpdate:
		return name == "Set"
	}
	return name == "From"
}

// clauseValues makes one arbitrary value per mark of a clause.
func clauseValues(c Clause) []any_ {
	v := make([]any_, c.Marks)
	for i := range v {
		v[i] = sym.Int64(c.Name)
	}
	return v
}

// plainValues makes one distinct constant per mark of a clause, for harnesses about String().
func plainValues(c Clause) []any_ {
	v := make([]any_, c.Marks)
	for i := range v {
		v[i] = 100*(1+len(c.Frag)) + i
	}
	return v
}

// SQLText is the template of the statement made of the clauses in on, and its values in order.
func SQLText(h Head, cs []Clause, on []bool, vs [][]any_) (string, []any_) {
	s := ""
	var args []any_
	for i := range cs {
		if i == h.At {
			s += " " + h.Text
		}
		if on[i] {
			s += " " + cs[i].Frag
			args = append(args, vs[i]...)
		}
	}
	return s, args
}

// AnySubset is a builder with an arbitrary subset of the clauses set, in SQL order.
func AnySubset(k Kind, values func(Clause) []any_) (b builder.Builder, tmpl string, args []any_) {
	h, cs := clausesOf(k)
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	b = h.New()
	for i, c := range cs {
		on[i] = sym.Bool(c.Name)
		vs[i] = values(c)
		if on[i] {
			b = c.Apply(b, vs[i])
		}
	}
	tmpl, args = SQLText(h, cs, on, vs)
	return
}

// NearSubset is a builder with all clauses but at most n, or with the required ones and at most n others.
func NearSubset(k Kind, n int, values func(Clause) []any_) (b builder.Builder, tmpl string, args []any_) {
	h, cs := clausesOf(k)
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	b = h.New()
	all := sym.Choose("from all", 2) == 1
	changed := 0
	for i, c := range cs {
		on[i] = all || need(k, c.Name)
		if changed < n && sym.Choose(c.Name, 2) == 1 {
			changed++
			on[i] = !on[i]
		}
		vs[i] = values(c)
		if on[i] {
			b = c.Apply(b, vs[i])
		}
	}
	tmpl, args = SQLText(h, cs, on, vs)
	return
}
