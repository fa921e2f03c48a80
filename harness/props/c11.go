package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// operand makes an operand of some form: what is given, its text with '?' for values, its values.
func operand(name string, k int) (given any_, text string, args []any_) {
	v := sym.Int64(name)
	switch k {
	case 0:
		return v, "?", []any_{v}
	case 1:
		return nil, "NULL", nil
	case 2:
		return lk.Raw("now()"), "now()", nil
	case 3:
		n := "l" + sym.Str(name, 1)
		sym.Assume(n[1] != '?') // the mark of the templates; C04 covers it
		return lk.Condition(n), ref.Quote(n), nil
	case 4:
		return subq(v), `(SELECT "i" FROM "j" WHERE ("k" = ?))`, []any_{v}
	case 5:
		return lk.Value(v), "?", []any_{v}
	case 6:
		return stmt.NewCall("g", lk.Condition("h"), lk.Value(v)), `g("h", ?)`, []any_{v}
	case 7:
		return encInt{v}, "?", []any_{v}
	}
	switch k {
	case 8:
		return []int64{v}, "?", []any_{[]int64{v}}
	case 9:
		n := sym.Int(name)
		return n, "?", []any_{n}
	case 10:
		s := sym.Text(name, 0, 12)
		return s, "?", []any_{s}
	case 11:
		t := anyTime(name)
		return t, "?", []any_{t}
	}
	b := sym.Bool(name)
	return b, "?", []any_{b}
}

const nOperands = 13

type comparison struct {
	Name string
	Op   string
	F    func(v any_) stmt.Expression
}

func checkComparison(c stmt.Expression, what, want string, args []any_) {
	k := sym.Choose("statement", 3)
	var b builder.Builder
	clause := "WHERE"
	switch k {
	case 0:
		b = lk.Select("x").From("t").Where(c)
	case 1:
		b = lk.Update("t").Set(lk.Pair("s", lk.Raw("0"))).Where(c)
	case 2:
		b, clause = lk.Select("x").From("t").Having(c), "HAVING"
	}
	s := take(b)
	sym.Assert(s.ok, "C11 renders: "+what)
	sym.Observe("query", s.text)
	sym.Assert(ref.Same(conditionText(s.text, clause), ref.Lex(ref.Fill(want, dollar))), "C11 (left operator right): "+what)
	sym.Assert(ref.Same(conditionText(s.ntext, clause), ref.Lex(ref.Fill(want, named))), "C11 (left operator right), named: "+what)
	sym.Assert(SameArgs(s.args, args), "C11 operands in order: "+what)
}

// Comparisons of an identifier: a column of any name, or a raw expression.
func C11_identifier() {
	left := "l" + sym.Str("column", sym.Bound(1, 2))
	for i := 1; i < len(left); i++ {
		sym.Assume(left[i] != '?') // the mark of the templates; C04 covers it
	}
	a := lk.Condition(left)
	ltext := ref.Quote(left)
	if sym.Choose("raw", 2) == 1 {
		a, ltext = lk.Condition(lk.Raw("lower(x)")), "lower(x)"
	}
	cs := []comparison{
		{"Equal", "=", func(v any_) stmt.Expression { return a.Equal(v) }},
		{"NotEqual", "!=", func(v any_) stmt.Expression { return a.NotEqual(v) }},
		{"Is", "IS", func(v any_) stmt.Expression { return a.Is(v) }},
		{"IsNot", "IS NOT", func(v any_) stmt.Expression { return a.IsNot(v) }},
		{"GreaterThan", ">", func(v any_) stmt.Expression { return a.GreaterThan(v) }},
		{"GreaterThanOrEqual", ">=", func(v any_) stmt.Expression { return a.GreaterThanOrEqual(v) }},
		{"LessThan", "<", func(v any_) stmt.Expression { return a.LessThan(v) }},
		{"LessThanOrEqual", "<=", func(v any_) stmt.Expression { return a.LessThanOrEqual(v) }},
		{"Like", "LIKE", func(v any_) stmt.Expression { return a.Like(v) }},
		{"NotLike", "NOT LIKE", func(v any_) stmt.Expression { return a.NotLike(v) }},
		{"ILike", "ILIKE", func(v any_) stmt.Expression { return a.ILike(v) }},
		{"NotILike", "NOT ILIKE", func(v any_) stmt.Expression { return a.NotILike(v) }},
		{"IsDistinctFrom", "IS DISTINCT FROM", func(v any_) stmt.Expression { return a.IsDistinctFrom(v) }},
		{"IsNotDistinctFrom", "IS NOT DISTINCT FROM", func(v any_) stmt.Expression { return a.IsNotDistinctFrom(v) }},
		{"Contains", "@>", func(v any_) stmt.Expression { return a.Contains(v) }},
		{"IsContainedBy", "<@", func(v any_) stmt.Expression { return a.IsContainedBy(v) }},
		{"Overlap", "&&", func(v any_) stmt.Expression { return a.Overlap(v) }},
	}
	k := sym.Choose("comparison", len(cs)+2)
	if k >= len(cs) {
		null := sym.Bool("null")
		want := "(" + ltext + " IS NOT NULL)"
		if null {
			want = "(" + ltext + " IS NULL)"
		}
		checkComparison(a.IsNull(null), "IsNull", want, nil)
		return
	}
	g, text, args := operand("v", sym.Choose("operand", nOperands))
	checkComparison(cs[k].F(g), cs[k].Name, "("+ltext+" "+cs[k].Op+" "+text+")", args)
}

// Ranges and lists.
func C11_ranges() {
	a := lk.Condition("l")
	g1, t1, a1 := operand("from", sym.Choose("operand", nOperands))
	g2, t2, a2 := operand("to", sym.Choose("operand", nOperands))
	args := append(append([]any_{}, a1...), a2...)
	switch sym.Choose("comparison", 5) {
	case 0:
		checkComparison(a.Between(g1, g2), "Between", `("l" BETWEEN `+t1+" AND "+t2+")", args)
	case 1:
		checkComparison(a.NotBetween(g1, g2), "NotBetween", `("l" NOT BETWEEN `+t1+" AND "+t2+")", args)
	case 2:
		checkComparison(a.In(g1, g2), "In", `("l" IN (`+t1+", "+t2+"))", args)
	case 3:
		checkComparison(a.NotIn(g1, g2), "NotIn", `("l" NOT IN (`+t1+", "+t2+"))", args)
	case 4:
		checkComparison(stmt.NewCall("f", a).In(g1, g2), "Call.In", `(f("l") IN (`+t1+", "+t2+"))", args)
	}
}

// Comparisons of values and function calls.
func C11_values_and_calls() {
	l := sym.Int64("left")
	v := lk.Value(l)
	f := stmt.NewCall("f", lk.Value(l), lk.Condition("c"))
	vs := []comparison{
		{"Value.Equal", "=", func(x any_) stmt.Expression { return v.Equal(x) }},
		{"Value.NotEqual", "!=", func(x any_) stmt.Expression { return v.NotEqual(x) }},
		{"Value.Contains", "@>", func(x any_) stmt.Expression { return v.Contains(x) }},
		{"Value.IsContainedBy", "<@", func(x any_) stmt.Expression { return v.IsContainedBy(x) }},
		{"Value.Overlap", "&&", func(x any_) stmt.Expression { return v.Overlap(x) }},
		{"Call.Equal", "=", func(x any_) stmt.Expression { return f.Equal(x) }},
		{"Call.GreaterThan", ">", func(x any_) stmt.Expression { return f.GreaterThan(x) }},
		{"Call.LessThan", "<", func(x any_) stmt.Expression { return f.LessThan(x) }},
		{"Call.Like", "LIKE", func(x any_) stmt.Expression { return f.Like(x) }},
		{"Call.ILike", "ILIKE", func(x any_) stmt.Expression { return f.ILike(x) }},
		{"Call.Overlap", "&&", func(x any_) stmt.Expression { return f.Overlap(x) }},
	}
	k := sym.Choose("comparison", len(vs))
	g, text, args := operand("v", sym.Choose("operand", nOperands))
	left := "?"
	if k >= 5 {
		left = `f(?, "c")`
	}
	checkComparison(vs[k].F(g), vs[k].Name, "("+left+" "+vs[k].Op+" "+text+")", append([]any_{l}, args...))
}

// Inside AND and OR, a comparison is the same.
func C11_combined() {
	cs := conds()
	c := cs[sym.Choose("cond", len(cs))]
	n := ref.Marks(c.Tmpl)
	v := make([]any_, 2*n)
	for i := range v {
		v[i] = sym.Int64("v")
	}
	x, y := c.Build(v[:n]), c.Build(v[n:])
	if sym.Choose("op", 2) == 0 {
		checkComparison(lk.And(x, y), c.Name, "("+c.Tmpl+" AND "+c.Tmpl+")", v)
	} else {
		checkComparison(lk.Or(x, y), c.Name, "("+c.Tmpl+" OR "+c.Tmpl+")", v)
	}
}

// Function calls of any name.
func C11_functions() {
	name := "f" + sym.Str("name", []int{0, 1, 2, 4, 5, 7}[sym.Choose("length", sym.Bound(5, 6))])
	if sym.Choose("free", 2) == 1 {
		name = name[1:]
		sym.Assume(name != "")
	}
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] >= 'A' && name[i] <= 'z' || name[i] >= '0' && name[i] <= '9')
	}
	l, v := sym.Int64("left"), sym.Int64("value")
	f := stmt.NewCall(name, lk.Value(l), lk.Condition("c"))
	head := name + `($1, "c")`
	args := []any_{l, v}
	switch sym.Choose("arguments", 3) {
	case 1:
		f, head = stmt.NewCall(name, lk.Condition("c"), lk.Raw("*"), lk.Value(l)), name+`("c", *, $1)`
	case 2:
		f, head = stmt.NewCall(name, lk.Value(l)), name+`($1)`
	}
	var e stmt.Expression
	op, right := "", "$2"
	switch sym.Choose("comparison", 7) {
	case 0:
		e, op = f.Equal(v), "="
	case 1:
		e, op = f.GreaterThan(v), ">"
	case 2:
		e, op = f.LessThan(v), "<"
	case 3:
		e, op = f.Like(v), "LIKE"
	case 4:
		e, op = f.ILike(v), "ILIKE"
	case 5:
		e, op = f.Overlap(v), "&&"
	case 6:
		e, op, right = f.In(v, lk.Raw("1")), "IN", "($2, 1)"
	}
	q, as := lk.Select("x").From("t").Where(e).Query()
	sym.Observe("query", q)
	sym.Assert(ref.SameSQL(q, `SELECT "x" FROM "t" WHERE (`+head+" "+op+" "+right+")"), "C11 comparison of a function call of any name")
	sym.Assert(SameArgs(as, args), "C11 operands of a function call of any name")
}
