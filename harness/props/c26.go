package props

import (
	"unicode"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// checkRefused states that building or rendering, in whichever way, panics.
func checkRefused(build func() builder.Builder, label string) {
	var b builder.Builder
	if ok, _ := Try(func() { b = build() }); !ok {
		sym.Assert(true, label)
		return
	}
	q, _ := Try(func() { t, _ := b.Query(); sym.Observe("query", t) })
	sym.Assert(!q, label+": Query() refuses")
	n, _ := Try(func() { b.NamedQuery() })
	sym.Assert(!n, label+": NamedQuery() refuses")
	s, _ := Try(func() { _ = b.String() })
	sym.Assert(!s, label+": String() refuses")
}

// entry is an entry point that takes a name or a list; good makes it accept.
type entry struct {
	Name  string
	Build func(args ...any_) builder.Builder
}

// columnEntries take any number of columns, tableEntries any number of tables; oneEntries take a single name.
func columnEntries() []entry {
	return []entry{
		{"Select", func(args ...any_) builder.Builder { return lk.Select(args...).From("t") }},
		{"Columns", func(args ...any_) builder.Builder { return lk.Select("y").From("t").Columns(args...) }},
		{"Insert.Returning", func(args ...any_) builder.Builder { return lk.Insert("t").Columns("z").Values(1).Returning(args...) }},
		{"Update.Returning", func(args ...any_) builder.Builder { return lk.Update("t").Set(lk.Pair("z", 1)).Returning(args...) }},
		{"Delete.Returning", func(args ...any_) builder.Builder { return lk.Delete("t").Returning(args...) }},
		{"DistinctOn", func(args ...any_) builder.Builder { return lk.Select("x").DistinctOn(args...).From("t") }},
		{"GroupBy", func(args ...any_) builder.Builder { return lk.Select("x").From("t").GroupBy(args...) }},
		{"Insert.Columns", func(args ...any_) builder.Builder { return lk.Insert("t").Columns(args...).Values(1) }},
		{"Update.Set", func(args ...any_) builder.Builder { return lk.Update("t").Set(args...).Using(1) }},
	}
}

const nSelectEntries = 5

func tableEntries() []entry {
	return []entry{
		{"Select.From", func(args ...any_) builder.Builder { return lk.Select("x").From(args...) }},
		{"Delete.From", func(args ...any_) builder.Builder { return builder.NewDelete().From(args...) }},
		{"Delete.Using", func(args ...any_) builder.Builder { return lk.Delete("t").Using(args...) }},
	}
}

func oneTable() []entry {
	return []entry{
		{"Delete", func(args ...any_) builder.Builder { return lk.Delete(args[0]) }},
		{"Update", func(args ...any_) builder.Builder { return lk.Update(args[0]).Set(lk.Pair("a", 1)) }},
		{"Insert", func(args ...any_) builder.Builder { return lk.Insert(args[0]).Columns("a").Values(1) }},
		{"Insert.Into", func(args ...any_) builder.Builder { return builder.NewInsert().Into(args[0]).Columns("a").Values(1) }},
		{"Update.From", func(args ...any_) builder.Builder { return lk.Update("t").Set(lk.Pair("a", 1)).From(args[0]) }},
		{"Join on string", func(args ...any_) builder.Builder { return lk.Select("x").From("t").Join(args[0], "ON t.a = u.b") }},
		{"Join on clause", func(args ...any_) builder.Builder { return lk.Select("x").From("t").Join(args[0], lk.On("a", "b")) }},
		{"Join on clause, type", func(args ...any_) builder.Builder {
			return lk.Select("x").From("t").Join(args[0], lk.On("a", "b"), lk.LeftJoin)
		}},
		{"Join on string, type", func(args ...any_) builder.Builder {
			return lk.Select("x").From("t").Join(args[0], "a = b", lk.RightJoin)
		}},
		{"Select.From one", func(args ...any_) builder.Builder { return lk.Select("x").From(args[0]) }},
		{"Delete.Using one", func(args ...any_) builder.Builder { return lk.Delete("t").Using(args[0]) }},
	}
}

func oneColumn() []entry {
	return []entry{
		{"OnConflict", func(args ...any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(1).OnConflict(args[0], lk.DoNothing())
		}},
		{"OnConflict second", func(args ...any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(1).OnConflict("a", args[0], lk.DoUpdate(lk.Pair("b", 1)))
		}},
		{"DoUpdate", func(args ...any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(1).OnConflict("a", lk.DoUpdate(lk.Pair(args[0], 1)))
		}},
		{"Pair", func(args ...any_) builder.Builder { return lk.Update("t").Set(lk.Pair(args[0], 1)) }},
		{"second Pair", func(args ...any_) builder.Builder { return lk.Update("t").Set(lk.Pair("a", 1), lk.Pair(args[0], 2)) }},
		{"Insert Pair", func(args ...any_) builder.Builder { return lk.Insert("t").Set(lk.Pair(args[0], 1)) }},
		{"Map", func(args ...any_) builder.Builder { return lk.Update("t").Set(lk.Map{args[0]: 1}) }},
		{"Insert Map", func(args ...any_) builder.Builder { return lk.Insert("t").Set(lk.Map{"bbbb": 2, args[0]: 1}) }},
		{"DoUpdate Map", func(args ...any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values(1).OnConflict("a", lk.DoUpdate(lk.Map{args[0]: 1}))
		}},
		{"string map", func(args ...any_) builder.Builder {
			s, ok := args[0].(string)
			if !ok {
				s = args[0].(stmt.Column).Name
			}
			return lk.Update("t").Set(map[string]interface{}{s: 1})
		}},
	}
}

// blank tells whether a list element is only white space.
func blank(s string) bool {
	for _, r := range s {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return true
}

// strayComma tells whether the comma-separated list s has an element without a name.
func strayComma(s string) bool {
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ',' {
			if blank(s[from:i]) {
				return true
			}
			from = i + 1
		}
	}
	return false
}

// Any string as a list of columns: refused when one of its elements is empty, else one delimited identifier for each.
func C26_lists() {
	es := columnEntries()
	e := es[sym.Choose("entry", len(es))]
	s := sym.Str("list", sym.Choose("length", sym.Bound(4, 5)))
	args := [][]any_{{s}, {"x", s}, {s, "x"}, {lk.Column("x"), s}}[sym.Choose("among", 4)]
	if strayComma(s) {
		checkRefused(func() builder.Builder { return e.Build(args...) }, "C26 an empty column in the list of "+e.Name)
		return
	}
	b := e.Build(args...)
	t := take(b)
	sym.Observe("query", t.text)
	sym.Assert(t.ok, "C26 accepted without empty column: "+e.Name)
}

// Any string in a string slice or column slice.
func C26_slices() {
	es := columnEntries()
	e := es[sym.Choose("entry", len(es)-1)]
	s := sym.Str("name", sym.Choose("length", 3))
	n := sym.Choose("more", 4)
	at := sym.Choose("at", n+1)
	names := make([]string, n+1)
	cols := make([]stmt.Column, n+1)
	sels := make([]stmt.SelectExpression, n+1)
	for i := range names {
		names[i] = "c" + ref.Itoa(i)
		if i == at {
			names[i] = s
		}
		cols[i] = lk.Column(names[i])
		sels[i] = cols[i]
	}
	how := sym.Choose("how", 3)
	var arg any_
	bad := s == ""
	switch how {
	case 0:
		arg = names
		// an element of a string slice may be a list itself
		bad = blank(s)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != ',')
		}
	case 1:
		arg = cols
	case 2:
		if sym.Choose("of", 1) == 0 && !isSelectEntry(e.Name) {
			return
		}
		arg = sels
	}
	if bad {
		checkRefused(func() builder.Builder { return e.Build(arg) }, "C26 an empty column in a slice for "+e.Name)
		return
	}
	t := take(e.Build(arg))
	sym.Observe("query", t.text)
	sym.Assert(t.ok, "C26 accepted without empty column: "+e.Name)
}

func isSelectEntry(name string) bool {
	for _, e := range columnEntries()[:nSelectEntries] {
		if e.Name == name {
			return true
		}
	}
	return false
}

// Any string as the name of a table, alone or among others, as a string or a table.
func C26_tables() {
	ms, os := tableEntries(), oneTable()
	k := sym.Choose("entry", len(ms)+len(os))
	s := sym.Str("name", sym.Choose("length", 3))
	arg := []any_{s, lk.Table(s), lk.Table(s).As("z"), lk.Table(s).Only()}[sym.Choose("form", 4)]
	var e entry
	args := []any_{arg}
	if k < len(ms) {
		e = ms[k]
		switch sym.Choose("among", 4) {
		case 1:
			args = []any_{"u", arg}
		case 2:
			args = []any_{arg, lk.Table("u")}
		case 3:
			if e.Name == "Delete.Using" {
				return
			}
			args = []any_{stmt.NewFrom([]stmt.Statement{lk.Table("u"), lk.Table(s)})}
		}
	} else {
		e = os[k-len(ms)]
	}
	build := func() builder.Builder { return e.Build(args...) }
	if s == "" {
		checkRefused(build, "C26 an empty table for "+e.Name)
		return
	}
	t := take(build())
	sym.Observe("query", t.text)
	sym.Assert(t.ok, "C26 accepted with a table name: "+e.Name)
}

// Any string as the name of a column where one is expected.
func C26_columns() {
	es := oneColumn()
	e := es[sym.Choose("entry", len(es))]
	s := sym.Str("name", sym.Choose("length", 3))
	column := sym.Choose("as column", 2) == 1
	var arg any_ = s
	bad := blank(s)
	if column && e.Name != "string map" {
		arg, bad = lk.Column(s), s == ""
	}
	build := func() builder.Builder { return e.Build(arg) }
	if bad {
		checkRefused(build, "C26 an empty column for "+e.Name)
		return
	}
	t := take(build())
	sym.Observe("query", t.text)
	sym.Assert(t.ok, "C26 accepted with a column name: "+e.Name)
}

// noColumn are conditions that name no column: every comparison of an undefined or unsupported column.
func noColumn(id any_) []stmt.Expression {
	c := lk.Condition(id)
	return []stmt.Expression{c.Equal(1), c.NotEqual(1), c.Is(nil), c.IsNot(nil), c.IsNull(true), c.IsNull(false), c.GreaterThan(1), c.GreaterThanOrEqual(1),
		c.LessThan(1), c.LessThanOrEqual(1), c.In(1, 2), c.NotIn(1), c.Like("a"), c.NotLike("a"), c.ILike("a"), c.NotILike("a"), c.Between(1, 2), c.NotBetween(1, 2),
		c.IsDistinctFrom(1), c.IsNotDistinctFrom(1), c.Contains(1), c.IsContainedBy(1), c.Overlap(1), c,
		c.Equal(1).And(eq("b", 1)), eq("b", 1).(stmt.InfixExpression).Or(c.In(1)), c.In(1).And(eq("b", 2)), lk.And(eq("a", 1), c.Between(1, 2)), lk.Or(c.Like(1), eq("a", 1)),
		lk.Condition("a").Equal(c), lk.Value(1).Equal(c), lk.Condition("a").In(1, c), lk.Condition("a").Between(c, 1), lk.Condition("a").Between(1, c), stmt.NewCall("f", c).Equal(1),
		stmt.NewCall("f").Equal(c)}
}

type filter struct {
	Name  string
	Build func(c stmt.Expression) builder.Builder
}

// filters are the places that take a condition.
func filters() []filter {
	return []filter{
		{"Select.Where", func(c stmt.Expression) builder.Builder { return lk.Select("x").From("t").Where(c) }},
		{"Select.And", func(c stmt.Expression) builder.Builder { return lk.Select("x").From("t").Where(eq("z", 1)).And(c) }},
		{"Select.Or", func(c stmt.Expression) builder.Builder { return lk.Select("x").From("t").Where(eq("z", 1)).Or(c) }},
		{"Select.Having", func(c stmt.Expression) builder.Builder { return lk.Select("x").From("t").GroupBy("x").Having(c) }},
		{"Update.Where", func(c stmt.Expression) builder.Builder { return lk.Update("t").Set(lk.Pair("a", 1)).Where(c) }},
		{"Update.And", func(c stmt.Expression) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", 1)).Where(eq("z", 1)).And(c)
		}},
		{"Update.Or", func(c stmt.Expression) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", 1)).Where(eq("z", 1)).Or(c)
		}},
		{"Delete.Where", func(c stmt.Expression) builder.Builder { return lk.Delete("t").Where(c) }},
		{"Delete.And", func(c stmt.Expression) builder.Builder { return lk.Delete("t").Where(eq("z", 1)).And(c) }},
		{"Delete.Or", func(c stmt.Expression) builder.Builder { return lk.Delete("t").Where(eq("z", 1)).Or(c) }},
		{"in a subquery", func(c stmt.Expression) builder.Builder {
			return lk.Delete("t").Where(lk.Condition("b").In(lk.Select("i").From("j").Where(c)))
		}},
	}
}

// Conditions on nothing, everywhere.
func C26_conditions() {
	ids := []any_{"", nil, lk.Raw(""), 5, true, lk.Column("a"), []string{"a"}, unsupportedT{1}, stmt.NewTable("t"), lk.Value(1), 'c', 1.5, lk.Select("x"), struct{}{}, []byte("a")}
	id := ids[sym.Choose("identifier", len(ids))]
	cs := noColumn(id)
	c := cs[sym.Choose("condition", len(cs))]
	fs := filters()
	f := fs[sym.Choose("place", len(fs))]
	checkRefused(func() builder.Builder { return f.Build(c) }, "C26 a condition without column in "+f.Name)
}

// empties are expressions without text.
func empties() []any_ {
	return []any_{lk.Raw(""), stmt.Select{}, builder.NewSelect(), builder.NewSelect().From("t"), stmt.Identifier{}, lk.Condition(""), stmt.InfixExpression{}, stmt.In{}, stmt.Between{},
		stmt.Array{}, stmt.NewArrayExpression(), stmt.ArrayList{}, lk.Raw("")}
}

// An operand without text, at every place of a value or a subquery.
func C26_operands() {
	xs := empties()
	x := xs[sym.Choose("operand", len(xs))]
	p := AnyPlace()
	if p.Name == "RawCond" {
		return
	}
	n := ref.Marks(p.Tmpl)
	pos := sym.Choose("position", n)
	given := make([]any_, n)
	for i := range given {
		given[i] = int64(i)
	}
	given[pos] = x
	checkRefused(func() builder.Builder { return p.Build(given) }, "C26 an operand without text")
}

// A subquery without text, at every place of a subquery.
func C26_subqueries() {
	s := []builder.Select{{}, builder.NewSelect(), builder.NewSelect().From("t"), builder.NewSelect().Where(eq("a", 1)).Limit(1)}[sym.Choose("subquery", 4)]
	ss := subSites()
	site := ss[sym.Choose("site", len(ss))]
	v := outerValues()
	checkRefused(func() builder.Builder { return site.Build(s, v) }, "C26 a subquery without columns")
}

// Arguments of unsupported types, at every entry point that takes a column or a table.
func C26_types() {
	cs, ts, oc, ot := columnEntries(), tableEntries(), oneColumn(), oneTable()
	all := append(append(append(append([]entry{}, cs...), ts...), oc[:len(oc)-1]...), ot...)
	k := sym.Choose("entry", len(all))
	e := all[k]
	bad := []any_{nil, 1, true, 'x', 1.5, unsupportedT{1}, struct{}{}, []int{1}, []byte("ab"), encStr{"a"}, lk.Value("a"), lk.Condition("a"), (*stmt.Column)(nil),
		&unsupportedT{1}, [][]string{{"a"}}, error(nil), namedStr("a"), lk.Order("a"), [1]string{"a"}, lk.Delete("t"), eq("a", 1), stmt.NewWhere(eq("a", 1))}
	x := bad[sym.Choose("argument", len(bad))]
	switch x.(type) {
	case stmt.Column:
		return
	}
	args := []any_{x}
	if k < len(cs)+len(ts) {
		args = [][]any_{{x}, {"u", x}, {x, "u"}}[sym.Choose("among", 3)]
	}
	checkRefused(func() builder.Builder { return e.Build(args...) }, "C26 an argument of an unsupported type for "+e.Name)
}

// Tables where columns are expected and the other way round.
func C26_swapped() {
	cs, ts, oc, ot := columnEntries(), tableEntries(), oneColumn(), oneTable()
	if sym.Choose("column", 2) == 1 {
		all := append(append([]entry{}, ts...), ot...)
		e := all[sym.Choose("entry", len(all))]
		x := []any_{lk.Column("a"), []stmt.Column{lk.Column("a")}, []stmt.SelectExpression{lk.Column("a")}, lk.Count("a"), []string{"a"}, []stmt.Table{lk.Table("a")}, lk.Select("x")}[sym.Choose("argument", 7)]
		checkRefused(func() builder.Builder { return e.Build(x) }, "C26 no table for "+e.Name)
		return
	}
	all := append(append([]entry{}, cs...), oc[:len(oc)-1]...)
	e := all[sym.Choose("entry", len(all))]
	x := []any_{lk.Table("a"), stmt.NewFrom([]stmt.Statement{lk.Table("a")}), []stmt.Table{lk.Table("a")}, lk.Select("x"), lk.Select("x").Statement()}[sym.Choose("argument", 5)]
	checkRefused(func() builder.Builder { return e.Build(x) }, "C26 no column for "+e.Name)
}

type malformedCase struct {
	name  string
	build func() builder.Builder
}

// malformed is everything else that is undefined or malformed.
func malformed() []malformedCase {
	full := lk.Select("x").From("t")
	ins := lk.Insert("t").Columns("a")
	on := lk.On("a", "b")
	sel := func(e stmt.SelectExpression) func() builder.Builder {
		return func() builder.Builder { return lk.Select("y", e).From("t") }
	}
	return []malformedCase{
		{"empty raw column", sel(lk.Raw(""))}, {"empty count", sel(lk.Count(""))}, {"empty distinct count", sel(lk.Count("").Distinct(true).As("z"))},
		{"empty max", sel(lk.Max(""))}, {"empty min", sel(lk.Min("").As("z"))}, {"empty sum", sel(lk.Sum(""))}, {"exists nothing", sel(lk.Exists(lk.Raw("")))},
		{"exists an empty select", sel(lk.Exists(builder.NewSelect()))}, {"not exists nothing", sel(lk.NotExists(stmt.Select{}))}, {"zero exists", sel(stmt.Exists{})}, {"zero not exists", sel(stmt.NotExists{})},
		{"empty column with alias", sel(lk.Column("").As("z"))}, {"nil select expression", func() builder.Builder { return lk.Select([]stmt.SelectExpression{lk.Column("a"), nil}) }},
		{"select of nothing", func() builder.Builder { return builder.NewSelect().From("t") }}, {"select of an empty slice", func() builder.Builder { return lk.Select([]string{}) }},
		{"select of no columns", func() builder.Builder { return lk.Select([]stmt.Column{}) }}, {"select of no expressions", func() builder.Builder { return lk.Select([]stmt.SelectExpression{}).From("t") }},
		{"empty with name", func() builder.Builder { return full.With(lk.With("", subq(1))) }}, {"zero with", func() builder.Builder { return full.With(stmt.WithQuery{}) }},
		{"with without query", func() builder.Builder { return full.With(stmt.WithQuery{Name: "c"}) }}, {"with an empty query", func() builder.Builder { return full.With(lk.With("c", builder.NewSelect())) }},
		{"with empty raw", func() builder.Builder { return full.With(lk.With("c", lk.Raw(""))) }},
		{"second with empty", func() builder.Builder { return full.With(lk.With("c", subq(1)), lk.With("", subq(1))) }},
		{"update with empty name", func() builder.Builder { return lk.Update("t").Set(lk.Pair("a", 1)).With(lk.With("", subq(1))) }},
		{"update with no query", func() builder.Builder { return lk.Update("t").Set(lk.Pair("a", 1)).With(stmt.WithQuery{Name: "c"}) }},
		{"empty order", func() builder.Builder { return full.OrderBy(lk.Order("")) }}, {"second order empty", func() builder.Builder { return full.OrderBy(lk.Order("a"), lk.Order("", lk.Desc)) }},
		{"order of an empty column", func() builder.Builder { return full.OrderBy(lk.Column("").Asc()) }}, {"zero order", func() builder.Builder { return full.OrderBy(stmt.Order{}) }},
		{"empty prefix", func() builder.Builder { return full.Prefix("") }}, {"empty suffix", func() builder.Builder { return full.Suffix("") }},
		{"zero prefix", func() builder.Builder { return full.Prefix(stmt.Prefix{}) }}, {"zero suffix", func() builder.Builder { return full.Suffix(stmt.Suffix{}) }},
		{"number prefix", func() builder.Builder { return full.Prefix(1) }}, {"nil suffix", func() builder.Builder { return full.Suffix(nil) }},
		{"empty group by", func() builder.Builder { return full.GroupBy() }}, {"group by an empty slice", func() builder.Builder { return full.GroupBy([]string{}) }},
		{"empty distinct on", func() builder.Builder { return full.DistinctOn() }}, {"distinct on no columns", func() builder.Builder { return full.DistinctOn([]stmt.Column{}) }},
		{"from nothing", func() builder.Builder { return lk.Select("x").From() }}, {"from an empty from", func() builder.Builder { return lk.Select("x").From(stmt.From{}) }},
		{"from a nil table", func() builder.Builder { return lk.Select("x").From(stmt.NewFrom([]stmt.Statement{nil})) }}, {"from empty raw", func() builder.Builder { return lk.Select("x").From("t", lk.Raw("")) }},
		{"delete from nothing", func() builder.Builder { return builder.NewDelete().Where(eq("a", 1)) }}, {"delete from no tables", func() builder.Builder { return builder.NewDelete().From() }},
		{"insert into nothing", func() builder.Builder { return builder.NewInsert().Columns("a").Values(1) }}, {"zero into", func() builder.Builder { return builder.NewInsert().Into(stmt.Into{}).Columns("a").Values(1) }},
		{"update of nothing", func() builder.Builder { return builder.Update{}.Set(lk.Pair("a", 1)) }},
		{"update without set", func() builder.Builder { return lk.Update("t").Where(eq("a", 1)) }}, {"update with an empty set", func() builder.Builder { return lk.Update("t").Set() }},
		{"update with an empty map", func() builder.Builder { return lk.Update("t").Set(lk.Map{}) }}, {"update columns without values", func() builder.Builder { return lk.Update("t").Set("a", "b") }},
		{"update with an empty string map", func() builder.Builder { return lk.Update("t").Set(map[string]interface{}{}) }},
		{"using without columns", func() builder.Builder { return lk.Update("t").Using(1) }}, {"empty using", func() builder.Builder { return lk.Update("t").Set("a").Using() }},
		{"using with pairs", func() builder.Builder { return lk.Update("t").Set(lk.Pair("a", 1)).Using(1) }},
		{"columns and pairs", func() builder.Builder { return lk.Update("t").Set("a").Set(lk.Pair("b", 1)).Using(1) }}, {"pairs and columns", func() builder.Builder { return lk.Update("t").Set(lk.Pair("b", 1)).Set("a") }},
		{"set of an empty pair", func() builder.Builder { return lk.Update("t").Set(types.Pair{}) }}, {"set of a pair without key", func() builder.Builder { return lk.Update("t").Set(types.Pair{Value: 1}) }},
		{"set of a number", func() builder.Builder { return lk.Update("t").Set(1) }}, {"set of nil", func() builder.Builder { return lk.Update("t").Set(nil) }},
		{"set of empty text", func() builder.Builder { return lk.Update("t").Set(lk.Pair("a", lk.Raw(""))) }}, {"set of an empty query", func() builder.Builder { return lk.Update("t").Set(lk.Pair("a", builder.NewSelect())) }},
		{"using empty text", func() builder.Builder { return lk.Update("t").Set("a").Using(lk.Raw("")) }}, {"using an empty query", func() builder.Builder { return lk.Update("t").Set("a").Using(builder.NewSelect()) }},
		{"insert with an empty set", func() builder.Builder { return lk.Insert("t").Set() }}, {"insert with an empty map", func() builder.Builder { return lk.Insert("t").Set(lk.Map{}) }},
		{"insert set of columns", func() builder.Builder { return lk.Insert("t").Set("a") }},
		{"values of nothing", func() builder.Builder { return ins.Values() }}, {"values of an empty slice", func() builder.Builder { return ins.Values([]interface{}{}) }},
		{"values of an empty string slice", func() builder.Builder { return ins.Values([]string{}) }}, {"values of an empty row", func() builder.Builder { return ins.Values([][]int{{1}, {}}) }},
		{"values of no rows", func() builder.Builder { return ins.Values([][]string{}) }}, {"values of empty text", func() builder.Builder { return ins.Values(1, lk.Raw("")) }},
		{"values of single empty text", func() builder.Builder { return ins.Values(lk.Raw("")) }}, {"rows and more values", func() builder.Builder { return ins.Values([][]int{{1}}, 2) }},
		{"rows and more rows", func() builder.Builder { return ins.Values([][]interface{}{{1}}, [][]interface{}{{2}}) }}, {"value and rows", func() builder.Builder { return ins.Values(1, [][]string{{"a"}}) }},
		{"rows of an empty query", func() builder.Builder { return ins.Values([][]interface{}{{builder.NewSelect()}}) }}, {"rows of empty text", func() builder.Builder { return ins.Values([][]interface{}{{1, lk.Raw("")}}) }},
		{"rows of an unsupported type", func() builder.Builder { return ins.Values([][]uint{{1}}) }}, {"rows of a nil expression", func() builder.Builder { return ins.Values([][]stmt.Expression{{stmt.Identifier{}}}) }},
		{"empty on conflict", func() builder.Builder { return ins.Values(1).OnConflict() }}, {"on conflict without action", func() builder.Builder { return ins.Values(1).OnConflict("a") }},
		{"update without target", func() builder.Builder { return ins.Values(1).OnConflict(lk.DoUpdate(lk.Pair("a", 1))) }}, {"empty update", func() builder.Builder { return ins.Values(1).OnConflict("a", lk.DoUpdate()) }},
		{"on conflict of a number", func() builder.Builder { return ins.Values(1).OnConflict(1, lk.DoNothing()) }},
		{"empty join", func() builder.Builder { return full.Join("") }}, {"no join", func() builder.Builder { return full.Join() }}, {"four arguments", func() builder.Builder { return full.Join("u", on, lk.LeftJoin, 1) }},
		{"join without table", func() builder.Builder { return full.Join("ON a = b") }}, {"join without condition", func() builder.Builder { return full.Join("LEFT JOIN u") }},
		{"join on nothing", func() builder.Builder { return full.Join("u", "") }}, {"join without right column", func() builder.Builder { return full.Join("u", lk.On("a", "")) }},
		{"join without left column", func() builder.Builder { return full.Join("u", lk.On("", "b")) }}, {"typed join without column", func() builder.Builder { return full.Join("u", lk.On("", "b"), lk.LeftJoin) }},
		{"join and nothing", func() builder.Builder { return full.Join("u", on.And(lk.On("", "b"))) }}, {"join or nothing", func() builder.Builder { return full.Join("u", lk.OrOn(lk.On("c", ""), on)) }},
		{"join and nil", func() builder.Builder { return full.Join("u", on.And(nil)) }}, {"zero on clause", func() builder.Builder { return full.Join("u", stmt.OnClause{}) }},
		{"zero join", func() builder.Builder { return full.Join(stmt.Join{}) }}, {"join of an empty table", func() builder.Builder { return full.Join(stmt.NewInnerJoin(lk.Table(""), on)) }},
		{"join of no condition", func() builder.Builder { return full.Join(stmt.NewLeftJoin(lk.Table("u"), nil)) }}, {"join of an empty condition", func() builder.Builder { return full.Join(stmt.NewLeftJoin(lk.Table("u"), lk.On("a", ""))) }},
		{"join of no type", func() builder.Builder { return full.Join(stmt.NewJoin("", lk.Table("u"), on)) }}, {"join with an empty type", func() builder.Builder { return full.Join("u", on, types.JoinType("")) }},
		{"join with a string type", func() builder.Builder { return full.Join("u", on, "LEFT JOIN") }}, {"join on a number", func() builder.Builder { return full.Join("u", 1) }},
		{"join on nil", func() builder.Builder { return full.Join("u", nil) }}, {"join a number", func() builder.Builder { return full.Join(1) }}, {"join nil", func() builder.Builder { return full.Join(nil) }},
		{"limit of nothing", func() builder.Builder { return full.Limit(nil) }}, {"limit of empty text", func() builder.Builder { return full.Limit("") }}, {"offset of nothing", func() builder.Builder { return full.Offset(nil) }},
		{"infix without left", func() builder.Builder {
			return full.Where(stmt.NewInfixExpression(nil, stmt.NewComparisonOperator("="), lk.Value(1)))
		}},
		{"infix without right", func() builder.Builder {
			return full.Where(stmt.NewInfixExpression(lk.Value(1), stmt.NewComparisonOperator("="), nil))
		}},
		{"infix without operator", func() builder.Builder {
			return full.Where(stmt.NewInfixExpression(lk.Value(1), stmt.NewComparisonOperator(""), lk.Value(1)))
		}},
		{"exists nothing in where", func() builder.Builder { return full.Where(lk.Exists(lk.Raw(""))) }}, {"zero exists in where", func() builder.Builder { return full.Where(stmt.Exists{}) }},
		{"zero call", func() builder.Builder { return full.Where(stmt.NewCall("").Equal(1)) }}, {"raw nothing", func() builder.Builder { return full.Where(lk.Raw("")) }},
		{"nil where", func() builder.Builder { return full.Where(nil) }}, {"nil having", func() builder.Builder { return full.Having(nil) }},
		{"call of nothing", func() builder.Builder { return full.Where(stmt.NewCall("f", lk.Raw(""), lk.Value(1)).Equal(1)) }}, {"call of nil", func() builder.Builder { return full.Where(stmt.NewCall("f", nil).Equal(1)) }},
	}
}

// Everything else that is undefined or malformed.
func C26_malformed() {
	all := malformed()
	c := all[sym.Choose("case", len(all))]
	checkRefused(c.build, "C26 "+c.name)
}
