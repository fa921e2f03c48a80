package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// listClause is a clause made of a list. In Tmpl, '#' is the list.
type listClause struct {
	Name  string
	Tmpl  string
	Build func(args ...any_) builder.Builder
}

// selectLists are the lists of result columns, columnLists those of plain columns.
func selectLists() []listClause {
	return []listClause{
		{"Select", `SELECT # FROM "t"`, func(args ...any_) builder.Builder { return lk.Select(args...).From("t") }},
		{"Columns", `SELECT # FROM "t"`, func(args ...any_) builder.Builder { return builder.NewSelect().From("t").Columns(args...) }},
		{"Insert.Returning", `INSERT INTO "t" ("z") VALUES (NULL) RETURNING #`, func(args ...any_) builder.Builder {
			return lk.Insert("t").Columns("z").Returning(args...).Values(nil)
		}},
		{"Update.Returning", `UPDATE "t" SET "z" = NULL RETURNING #`, func(args ...any_) builder.Builder {
			return lk.Update("t").Returning(args...).Set(lk.Pair("z", nil))
		}},
		{"Delete.Returning", `DELETE FROM "t" RETURNING #`, func(args ...any_) builder.Builder { return lk.Delete("t").Returning(args...) }},
	}
}

func columnLists() []listClause {
	return []listClause{
		{"DistinctOn", `SELECT DISTINCT ON (#) "x" FROM "t"`, func(args ...any_) builder.Builder { return lk.Select("x").DistinctOn(args...).From("t") }},
		{"GroupBy", `SELECT "x" FROM "t" GROUP BY #`, func(args ...any_) builder.Builder { return lk.Select("x").From("t").GroupBy(args...) }},
		{"Insert.Columns", `INSERT INTO "t" (#) VALUES (NULL)`, func(args ...any_) builder.Builder { return lk.Insert("t").Columns(args...).Values(nil) }},
	}
}

// listName is an arbitrary name without comma, that neither starts nor ends in a space.
func listName(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] > ' ' && s[i] < 0x7f && s[i] != ',')
	}
	return s
}

func listOf(tmpl, list string) string {
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '#' {
			return tmpl[:i] + list + tmpl[i+1:]
		}
	}
	panic("no list")
}

func quoted(names []string) string {
	out := ""
	for i, n := range names {
		if i > 0 {
			out += ", "
		}
		out += ref.Quote(n)
	}
	return out
}

// checkPlain states that b renders text, in all three ways, without any argument.
func checkPlain(b builder.Builder, text, label string) {
	s := take(b)
	sym.Observe("query", s.text)
	sym.Assert(s.ok && ref.SameSQL(s.text, text), label+" (Query)")
	sym.Assert(s.ntext == s.text && len(s.args) == 0 && len(s.nargs) == 0, label+" (NamedQuery)")
	sym.Assert(b.String() == s.text, label+" (String)")
}

// columnForms are the ways to give a list of column names.
const nColumnForms = 7

func columnForm(k int, names []string) []any_ {
	var out []any_
	joined := func(names []string, sep string) string {
		s := ""
		for i, n := range names {
			if i > 0 {
				s += sep
			}
			s += n
		}
		return s
	}
	switch k {
	case 0:
		for _, n := range names {
			out = append(out, n)
		}
	case 1:
		out = append(out, joined(names, ","))
	case 2:
		out = append(out, " "+joined(names, " ,\t")+"\n")
	case 3:
		out = append(out, append([]string{}, names...))
	case 4:
		cs := []stmt.Column{}
		for _, n := range names {
			cs = append(cs, lk.Column(n))
		}
		out = append(out, cs)
	case 5:
		for i, n := range names {
			if i%2 == 0 {
				out = append(out, lk.Column(n))
			} else {
				out = append(out, " "+n+"  ")
			}
		}
	case 6:
		h := (len(names) + 1) / 2
		out = append(out, joined(names[:h], ", "))
		if h < len(names) {
			out = append(out, joined(names[h:], ", "))
		}
	}
	return out
}

// Every column list in every form, names arbitrary.
func C24_columns() {
	cs := append(selectLists(), columnLists()...)
	c := cs[sym.Choose("clause", len(cs))]
	n := sym.Choose("length", sym.Bound(4, 5)) + 1
	names := make([]string, n)
	for i := range names {
		names[i] = listName("name", 1+i%2)
	}
	form := sym.Choose("form", nColumnForms+1)
	var args []any_
	if form == nColumnForms {
		es := []stmt.SelectExpression{}
		for _, n := range names {
			es = append(es, lk.Column(n))
		}
		args = []any_{es}
		if c.Name == "DistinctOn" || c.Name == "GroupBy" || c.Name == "Insert.Columns" {
			return
		}
	} else {
		args = columnForm(form, names)
	}
	checkPlain(c.Build(args...), listOf(c.Tmpl, quoted(names)), "C24 every column of "+c.Name+", in order")
}

// listSize is a number up to small or a larger one.
func listSize(small int) int {
	k := sym.Choose("length", small+4)
	if k < small {
		return k + 1
	}
	return []int{33, 65, 129, 257}[k-small]
}

// Long lists of what has no list of arguments, over one call or many.
func C24_long_others() {
	n := []int{8, 9, 16, 17, 32, 33, 64, 65, 129, 257}[sym.Choose("length", sym.Bound(8, 10))]
	at := sym.Choose("at", 3) * (n - 1) / 2
	name := listName("name", 1)
	calls := sym.Choose("calls", 2) == 1
	names := make([]string, n)
	for i := range names {
		names[i] = "n" + pad(i)
	}
	names[at] = name
	text := ""
	add := func(s string) {
		if text != "" {
			text += ", "
		}
		text += s
	}
	var args []any_
	switch sym.Choose("clause", 8) {
	case 0:
		var os []stmt.Order
		for i, m := range names {
			if i%2 == 0 {
				os = append(os, lk.Order(m, lk.Desc))
				add(m + " DESC")
			} else {
				os = append(os, lk.Order(m))
				add(m + " ASC")
			}
		}
		b := lk.Select("x").From("t")
		if calls {
			for i := range os {
				b = b.OrderBy(os[i])
			}
		} else {
			b = b.OrderBy(os...)
		}
		s := take(b)
		sym.Assert(s.ok && s.text == `SELECT "x" FROM "t" ORDER BY `+text, "C24 every ORDER BY expression of a long list")
	case 1:
		b := lk.Select("x").From("t")
		want := `SELECT "x" FROM "t"`
		for _, m := range names {
			b = b.Join(lk.Table(m), lk.On("a", "b"), lk.LeftJoin)
			want += " LEFT JOIN " + ref.Quote(m) + ` ON "a" = "b"`
		}
		checkPlain(b, want, "C24 every join of many")
	case 2, 3:
		var qs []stmt.WithQuery
		for i := range names {
			m := "n" + pad(i)
			v := sym.Int64("v")
			qs = append(qs, lk.With(m, subq(v)))
			add(m + " AS (" + subj + ")")
			args = append(args, v)
		}
		if calls {
			b := lk.Select("x").From("t")
			for i := range qs {
				b = b.With(qs[i])
			}
			checkTemplate(b, "WITH "+text+` SELECT "x" FROM "t"`, args, "C24 every CTE of many calls")
			return
		}
		checkTemplate(lk.Update("t").Set(lk.Pair("a", nil)).With(qs...), "WITH "+text+` UPDATE "t" SET "a" = NULL`, args, "C24 every CTE of many")
	case 4, 5:
		var cols []any_
		marks := ""
		b := lk.Update("t")
		for i := range names {
			m := "n" + pad(i)
			v := sym.Int64("v")
			cols, args = append(cols, m), append(args, v)
			add(ref.Quote(m))
			if i > 0 {
				marks += ", "
			}
			marks += "?"
			if calls {
				b = b.Set(m)
			}
		}
		if calls {
			for _, v := range args {
				b = b.Using(v)
			}
		} else {
			b = b.Set(cols...).Using(args...)
		}
		checkTemplate(b, `UPDATE "t" SET (`+text+") = ("+marks+")", args, "C24 every column and value of a long USING")
	case 6:
		var es []stmt.SelectExpression
		for i, m := range names {
			switch i % 4 {
			case 0:
				es = append(es, lk.Column(m))
				add(ref.Quote(m))
			case 1:
				es = append(es, lk.Max("k"))
				add("MAX(k)")
			case 2:
				es = append(es, lk.Raw("r(1)"))
				add("r(1)")
			case 3:
				es = append(es, lk.Column("k").As(m))
				add(`"k" AS ` + ref.Quote(m))
			}
		}
		if calls {
			checkPlain(lk.Select(es).From("t"), "SELECT "+text+` FROM "t"`, "C24 every result column of a long slice")
			return
		}
		var vs []any_
		for _, e := range es {
			vs = append(vs, e)
		}
		checkPlain(lk.Delete("t").Returning(vs...), `DELETE FROM "t" RETURNING `+text, "C24 every result column of a long list")
	case 7:
		var ts []any_
		for i, m := range names {
			switch i % 3 {
			case 0:
				ts = append(ts, lk.Table(m))
				add(ref.Quote(m))
			case 1:
				ts = append(ts, lk.Table("k").As(m))
				add(`"k" AS ` + ref.Quote(m))
			case 2:
				ts = append(ts, lk.Table(m).Only())
				add("ONLY " + ref.Quote(m))
			}
		}
		if calls {
			checkPlain(lk.Select("x").From(ts...), `SELECT "x" FROM `+text, "C24 every table of a long list")
			return
		}
		checkPlain(lk.Delete("t").Using(ts...), `DELETE FROM "t" USING `+text, "C24 every table of a long list")
	}
}

// Long lists; the element at one place is arbitrary.
func C24_long() {
	cs := append(selectLists(), columnLists()...)
	c := cs[sym.Choose("clause", len(cs))]
	n := listSize(sym.Bound(18, 60))
	at := sym.Choose("at", 3) * (n - 1) / 2
	names := make([]string, n)
	for i := range names {
		names[i] = "c" + ref.Itoa(i)
	}
	names[at] = listName("name", 2)
	checkPlain(c.Build(columnForm(sym.Choose("form", nColumnForms), names)...), listOf(c.Tmpl, quoted(names)), "C24 every column of a long list of "+c.Name)
}

// Result columns of all kinds next to each other.
func C24_expressions() {
	cs := selectLists()
	c := cs[sym.Choose("clause", len(cs))]
	n := sym.Choose("length", sym.Bound(3, 4)) + 1
	var es []stmt.SelectExpression
	text := ""
	for i := 0; i < n; i++ {
		m := listName("name", 1)
		var e stmt.SelectExpression
		s := ""
		switch sym.Choose("element", 9) {
		case 0:
			e, s = lk.Column(m), ref.Quote(m)
		case 1:
			e, s = lk.Column(m).As("z"), ref.Quote(m)+` AS "z"`
		case 2:
			e, s = lk.Raw("r(1)"), "r(1)"
		case 3:
			e, s = lk.Count("*"), "COUNT(*)"
		case 4:
			e, s = lk.Count("k").Distinct(true).As("z"), "COUNT(DISTINCT k) AS z"
		case 5:
			e, s = lk.Max("k"), "MAX(k)"
		case 6:
			e, s = lk.Min("k").As("y"), "MIN(k) AS y"
		case 7:
			e, s = lk.Sum("k"), "SUM(k)"
		case 8:
			e, s = lk.Exists(lk.Select("i").From("j")), `EXISTS (SELECT "i" FROM "j")`
		}
		es = append(es, e)
		if i > 0 {
			text += ", "
		}
		text += s
	}
	args := []any_{es}
	switch sym.Choose("form", 3) {
	case 1:
		args = nil
		for _, e := range es {
			args = append(args, e)
		}
	case 2:
		args = []any_{es[0], "a, b"}
		for _, e := range es[1:] {
			args = append(args, e)
		}
		b := c.Build(args...)
		first := take(c.Build(es[0]))
		sym.Assert(first.ok, "C24 one result column")
		// what the first element and the names give, then the rest as it stands
		whole := take(b)
		sym.Assert(whole.ok, "C24 result columns and names")
		head, tail := splitList(c.Tmpl)
		one := first.text[len(head) : len(first.text)-len(tail)]
		rest := ""
		if n > 1 {
			r := take(c.Build(args[2:]...))
			sym.Assert(r.ok, "C24 the other result columns")
			rest = ", " + r.text[len(head):len(r.text)-len(tail)]
		}
		checkPlain(b, head+one+`, "a", "b"`+rest+tail, "C24 result columns and names mixed in "+c.Name)
		return
	}
	checkPlain(c.Build(args...), listOf(c.Tmpl, text), "C24 every result column of "+c.Name+", in order")
}

func splitList(tmpl string) (head, tail string) {
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '#' {
			return tmpl[:i], tmpl[i+1:]
		}
	}
	panic("no list")
}

// ---- tables

func tableLists() []listClause {
	return []listClause{
		{"Select.From", `SELECT "x" FROM #`, func(args ...any_) builder.Builder { return lk.Select("x").From(args...) }},
		{"Delete.From", `DELETE FROM #`, func(args ...any_) builder.Builder { return builder.NewDelete().From(args...) }},
		{"Delete.Using", `DELETE FROM "t" USING #`, func(args ...any_) builder.Builder { return lk.Delete("t").Using(args...) }},
	}
}

// Lists of tables, each given in any form.
func C24_tables() {
	cs := tableLists()
	c := cs[sym.Choose("clause", len(cs))]
	n := sym.Choose("length", sym.Bound(3, 4)) + 1
	forms := 7
	if c.Name == "Delete.Using" {
		forms = 4
	}
	var args []any_
	text := ""
	add := func(s string) {
		if text != "" {
			text += ", "
		}
		text += s
	}
	for i := 0; i < n; i++ {
		m := listName("name", 1+i%2)
		switch sym.Choose("form", forms) {
		case 0:
			args = append(args, m)
			add(ref.Quote(m))
		case 1:
			args = append(args, lk.Table(m))
			add(ref.Quote(m))
		case 2:
			args = append(args, lk.Table(m).As("z"))
			add(ref.Quote(m) + ` AS "z"`)
		case 3:
			args = append(args, lk.Table(m).Only())
			add("ONLY " + ref.Quote(m))
		case 4:
			args = append(args, stmt.NewFrom([]stmt.Statement{lk.Table(m), lk.Raw("f(1)")}))
			add(ref.Quote(m) + ", f(1)")
		case 5:
			args = append(args, lk.Raw("g(2) h"))
			add("g(2) h")
		case 6:
			args = append(args, stmt.NewFrom([]stmt.Statement{lk.Table(m).As("k")}))
			add(ref.Quote(m) + ` AS "k"`)
		}
	}
	checkPlain(c.Build(args...), listOf(c.Tmpl, text), "C24 every table of "+c.Name+", in order")
}

// Long lists of tables, and the single table arguments.
func C24_longTables() {
	cs := tableLists()
	c := cs[sym.Choose("clause", len(cs))]
	n := listSize(sym.Bound(18, 60))
	names := make([]string, n)
	args := make([]any_, n)
	for i := range names {
		names[i] = "t" + ref.Itoa(i)
		args[i] = names[i]
	}
	at := sym.Choose("at", 3) * (n - 1) / 2
	names[at] = listName("name", 2)
	args[at] = names[at]
	checkPlain(c.Build(args...), listOf(c.Tmpl, quoted(names)), "C24 every table of a long list of "+c.Name)
}

func C24_updateFrom() {
	m, k := listName("name", 2), listName("other", 1)
	arg := []any_{m, lk.Table(m), lk.Table(m).As(k), stmt.NewFrom([]stmt.Statement{lk.Table(m), lk.Table(k)}), lk.Raw("f() g")}
	text := []string{ref.Quote(m), ref.Quote(m), ref.Quote(m) + " AS " + ref.Quote(k), ref.Quote(m) + ", " + ref.Quote(k), "f() g"}
	f := sym.Choose("form", len(arg))
	checkPlain(lk.Update("t").Set(lk.Pair("a", nil)).From(arg[f]), `UPDATE "t" SET "a" = NULL FROM `+text[f], "C24 every table of Update.From")
}

// ---- accumulating clauses

// chunks splits n elements into consecutive calls: the sizes.
func chunks(n int) []int {
	sizes := []int{1}
	for i := 1; i < n; i++ {
		if sym.Choose("call", 2) == 1 {
			sizes = append(sizes, 1)
		} else {
			sizes[len(sizes)-1]++
		}
	}
	return sizes
}

// ORDER BY expressions over any calls.
func C24_orders() {
	n := sym.Choose("length", sym.Bound(5, 7)) + 1
	var os []stmt.Order
	text := ""
	for i := 0; i < n; i++ {
		m := "o" + ref.Itoa(i)
		if i == 0 || i == n-1 {
			m = listName("expression", 1)
		}
		if i > 0 {
			text += ", "
		}
		switch sym.Choose("order", 3) {
		case 0:
			os = append(os, lk.Order(m))
			text += m + " ASC"
		case 1:
			os = append(os, lk.Column(m).Desc())
			text += m + " DESC"
		case 2:
			os = append(os, lk.Column("c").As(m).Asc())
			text += m + " ASC"
		}
	}
	b := lk.Select("x").From("t")
	k := 0
	for _, size := range chunks(n) {
		if sym.Choose("other", 2) == 1 && k == 0 {
			b = b.Limit(1)
		}
		b = b.OrderBy(os[k : k+size]...)
		k += size
	}
	want := `SELECT "x" FROM "t" ORDER BY ` + text
	s := take(b)
	sym.Observe("query", s.text)
	sym.Assert(s.ok && (s.text == want || s.text == want+" LIMIT 1"), "C24 every ORDER BY expression, in order")
}

// Joins, in every argument form.
func C24_joins() {
	n := sym.Choose("length", sym.Bound(3, 4)) + 1
	b := lk.Select("x").From("t")
	want := `SELECT "x" FROM "t"`
	for i := 0; i < n; i++ {
		u := "u" + ref.Itoa(i)
		on := ` ON "t"."id" = "` + u + `"."id"`
		switch sym.Choose("form", 8) {
		case 0:
			b = b.Join(u, "ON t.id = "+u+".id")
			want += ` INNER JOIN "` + u + `"` + on
		case 1:
			b = b.Join("LEFT JOIN " + u + " ON t.id = " + u + ".id")
			want += ` LEFT JOIN "` + u + `"` + on
		case 2:
			b = b.Join(u, "t.id = "+u+".id", lk.RightJoin)
			want += ` RIGHT JOIN "` + u + `"` + on
		case 3:
			b = b.Join(lk.Table(u).As("z"), lk.On("t.id", u+".id"))
			want += ` INNER JOIN "` + u + `" AS "z"` + on
		case 4:
			b = b.Join(lk.Table(u), lk.On("t.id", u+".id"), lk.LeftJoin)
			want += ` LEFT JOIN "` + u + `"` + on
		case 5:
			b = b.Join(u, lk.On("t.id", u+".id").And(lk.On("a", "b")))
			want += ` INNER JOIN "` + u + `" ON ("t"."id" = "` + u + `"."id" AND "a" = "b")`
		case 6:
			b = b.Join(stmt.NewRightJoin(lk.Table(u), lk.On("t.id", u+".id")))
			want += ` RIGHT JOIN "` + u + `"` + on
		case 7:
			b = b.Join("JOIN " + u + " ON t.id = " + u + ".id;").Distinct()
			want += ` INNER JOIN "` + u + `"` + on
		}
	}
	s := take(b)
	sym.Observe("query", s.text)
	d := `SELECT DISTINCT "x"`
	sym.Assert(s.ok && (ref.SameSQL(s.text, want) || ref.SameSQL(s.text, d+want[len(`SELECT "x"`):])), "C24 every join, in order")
}

// Common table expressions over any calls.
func C24_with() {
	n := sym.Choose("length", sym.Bound(4, 6)) + 1
	var qs []stmt.WithQuery
	text := ""
	var args []any_
	for i := 0; i < n; i++ {
		m := "c" + ref.Itoa(i)
		if i == 0 || i == n-1 {
			m = "c" + listName("name", 1)
		}
		v := sym.Int64("v")
		qs = append(qs, lk.With(m, subq(v)))
		args = append(args, v)
		if i > 0 {
			text += ", "
		}
		text += m + ` AS (SELECT "i" FROM "j" WHERE ("k" = $` + ref.Itoa(i+1) + `))`
	}
	v := sym.Int64("v")
	args = append(args, v)
	var b builder.Builder
	k := 0
	if sym.Choose("statement", 2) == 1 {
		u := lk.Update("t").Set(lk.Pair("a", v))
		for _, size := range chunks(n) {
			u = u.With(qs[k : k+size]...)
			k += size
		}
		b = u
		text += ` UPDATE "t" SET "a" = $` + ref.Itoa(n+1)
	} else {
		s := lk.Select("x").From("t").Where(eq("a", v))
		for _, size := range chunks(n) {
			s = s.With(qs[k : k+size]...)
			k += size
		}
		b = s
		text += ` SELECT "x" FROM "t" WHERE ("a" = $` + ref.Itoa(n+1) + `)`
	}
	s := take(b)
	sym.Observe("query", s.text)
	sym.Assert(s.ok && s.text == "WITH "+text, "C24 every common table expression, in order")
	sym.Assert(SameArgs(s.args, args), "C24 the arguments of every common table expression")
}

// Column lists of UPDATE SET and the values of USING over any calls.
func C24_using() {
	n := sym.Choose("length", sym.Bound(4, 6)) + 1
	names := make([]string, n)
	var vs []any_
	for i := range names {
		names[i] = "c" + ref.Itoa(i)
		vs = append(vs, sym.Int64("v"))
	}
	var cols []any_
	for _, m := range names {
		cols = append(cols, m)
	}
	b := lk.Update("t").Set(cols...)
	k := 0
	for _, size := range chunks(n) {
		b = b.Using(vs[k : k+size]...)
		k += size
	}
	marks := ""
	for i := range names {
		if i > 0 {
			marks += ", "
		}
		marks += "?"
	}
	checkTemplate(b, `UPDATE "t" SET (`+quoted(names)+`) = (`+marks+`)`, vs, "C24 every value of USING")
}

// Joins of tables that may be the same, of any type, on conditions that may be the same.
func C24_joins_same() {
	n := sym.Choose("length", sym.Bound(3, 4)) + 1
	b := lk.Select("x").From("t")
	want := `SELECT "x" FROM "t"`
	for i := 0; i < n; i++ {
		u, c := []string{"u", "v"}[sym.Choose("table", 2)], []string{"a", "b"}[sym.Choose("condition", 2)]
		k := sym.Choose("type", 4)
		switch k {
		case 0:
			b = b.Join(u, lk.On(c, "c"), lk.InnerJoin)
		case 1:
			b = b.Join(u, lk.On(c, "c"), lk.LeftJoin)
		case 2:
			b = b.Join(lk.Table(u), lk.On(c, "c"), lk.RightJoin)
		case 3:
			b = b.Join("JOIN " + u + " ON " + c + " = c")
		}
		want += []string{" INNER", " LEFT", " RIGHT", " INNER"}[k] + ` JOIN "` + u + `" ON "` + c + `" = "c"`
	}
	checkPlain(b, want, "C24 every join, though the same as others")
}

// Elements of accumulating clauses that may be the same as others.
func C24_same() {
	n := sym.Choose("length", sym.Bound(4, 5)) + 1
	k := sym.Choose("clause", 4)
	v := sym.Int64("v")
	b := lk.Select("x").From("t")
	u := lk.Update("t").Set(lk.Pair("a", nil))
	text := ""
	var args []any_
	for i := 0; i < n; i++ {
		m := []string{"c", "d"}[sym.Choose("name", 2)]
		if i > 0 {
			text += ", "
		}
		switch k {
		case 0:
			d := sym.Choose("direction", 2)
			b = b.OrderBy([]stmt.Order{lk.Order(m), lk.Order(m, lk.Desc)}[d])
			text += m + []string{" ASC", " DESC"}[d]
		case 1:
			b = b.With(lk.With(m, subq(v)))
			text += m + ` AS (` + subj + `)`
			args = append(args, v)
		case 2:
			u = u.With(lk.With(m, subq(v)))
			text += m + ` AS (` + subj + `)`
			args = append(args, v)
		case 3:
			b = b.With(lk.With(m, lk.Select(m).From("y")))
			text += m + ` AS (SELECT "` + m + `" FROM "y")`
		}
	}
	switch k {
	case 0:
		checkTemplate(b, `SELECT "x" FROM "t" ORDER BY `+text, args, "C24 every ORDER BY expression, though the same as others")
	case 2:
		checkTemplate(u, `WITH `+text+` UPDATE "t" SET "a" = NULL`, args, "C24 every CTE, though the same as others")
	default:
		checkTemplate(b, `WITH `+text+` SELECT "x" FROM "t"`, args, "C24 every CTE, though the same as others")
	}
}
