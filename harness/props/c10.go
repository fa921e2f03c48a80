package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// tree composes an arbitrary tree with n leaves and returns it with its shape.
func tree(n int, next *int, style int) (stmt.Expression, string) {
	if n == 1 {
		col := "c" + ref.Itoa(*next)
		if style > 3 && *next > 0 && sym.Choose("same", 2) == 1 {
			col = "c0" // possibly the same as others
		}
		*next++
		form := 0
		if style == 2 { // leaves of other forms
			form = *next % nGood
		}
		if style > 3 && form == 0 {
			return eq(col, 1), col // equal as a whole
		}
		return goodCond(form, col, sym.Int64("v")), col
	}
	l := 1 + sym.Choose("left", n-1)
	left, ls := tree(l, next, style)
	right, rs := tree(n-l, next, style)
	op := sym.Choose("op", 2)
	shape := "(" + ls + []string{" AND ", " OR "}[op] + rs + ")"
	if style == 1 || style == 4 {
		// methods where the left operand has them
		switch x := left.(type) {
		case stmt.InfixExpression:
			if op == 0 {
				return x.And(right), shape
			}
			return x.Or(right), shape
		case stmt.In:
			if op == 0 {
				return x.And(right), shape
			}
			return x.Or(right), shape
		}
	}
	if style == 3 {
		return stmt.NewInfixExpression(left, stmt.NewLogicalOperator([]types.LogicalOperator{types.And, types.Or}[op]), right), shape
	}
	if op == 0 {
		return lk.And(left, right), shape
	}
	return lk.Or(left, right), shape
}

func checkTree(b builder.Builder, clause, want string) {
	s := take(b)
	sym.Assert(s.ok, "C10 renders")
	sym.Observe("query", s.text)
	got, ok := ref.Tree(conditionText(s.text, clause))
	sym.Assert(ok, "C10 the condition is one well-formed expression")
	sym.Assert(got == want, "C10 the condition read with SQL precedence is the tree that was composed")
	got, ok = ref.Tree(conditionText(s.ntext, clause))
	sym.Assert(ok && got == want, "C10 the condition read with SQL precedence is the tree that was composed (named)")
}

// Any tree, by functions, methods or constructors, as the condition of each statement.
func C10_trees() {
	style := sym.Choose("style", 6)
	n := 1 + sym.Choose("leaves", sym.Bound(5, 6))
	next := 0
	e, shape := tree(n, &next, style)
	switch sym.Choose("clause", 3) {
	case 0:
		checkTree(lk.Select("x").From("t").Where(e).Limit(1), "WHERE", shape)
	case 1:
		checkTree(lk.Select("x").From("t").GroupBy("x").Having(e).OrderBy(lk.Order("o")), "HAVING", shape)
	case 2:
		checkTree(lk.Delete("t").Where(e).Returning("x"), "WHERE", shape)
	}
}

// Builder calls over trees: they associate to the left, and each tree stays a group.
func C10_calls() {
	b := filterable(sym.Choose("statement", 3))
	style := sym.Choose("style", 2)
	n := 1 + sym.Choose("calls", sym.Bound(3, 4))
	next := 0
	want := ""
	for i := 0; i < n; i++ {
		e, shape := tree(1+sym.Choose("leaves", sym.Bound(2, 3)), &next, style)
		if i == 0 {
			b, want = where(b, 0, e), shape
			continue
		}
		how := sym.Choose("method", 3)
		b = where(b, how, e)
		want = "(" + want + []string{" AND ", " AND ", " OR "}[how] + shape + ")"
	}
	checkTree(b, "WHERE", want)
}

// onTree composes an arbitrary tree of join conditions.
func onTree(n int, next *int, style int) (stmt.OnExpression, string) {
	if n == 1 {
		col := "c" + ref.Itoa(*next)
		if style > 1 && *next > 0 && sym.Choose("same", 2) == 1 {
			col = "c0" // possibly the same as others
		}
		*next++
		return lk.On(col, "z"), col
	}
	l := 1 + sym.Choose("left", n-1)
	left, ls := onTree(l, next, style)
	right, rs := onTree(n-l, next, style)
	op := sym.Choose("op", 2)
	shape := "(" + ls + []string{" AND ", " OR "}[op] + rs + ")"
	if style%2 == 1 {
		switch x := left.(type) {
		case stmt.OnClause:
			if op == 0 {
				return x.And(right), shape
			}
			return x.Or(right), shape
		case stmt.InfixOnExpression:
			if op == 0 {
				return x.And(right), shape
			}
			return x.Or(right), shape
		}
	}
	if op == 0 {
		return lk.AndOn(left, right), shape
	}
	return lk.OrOn(left, right), shape
}

// Join conditions, among other clauses.
func C10_joins() {
	style := sym.Choose("style", 4)
	n := 1 + sym.Choose("leaves", sym.Bound(5, 6))
	next := 0
	e, shape := onTree(n, &next, style)
	b := lk.Select("x").From("t").Join("u", e)
	if sym.Choose("where", 2) == 1 {
		b = b.Where(eq("w", 1))
	}
	q, _ := b.Query()
	sym.Observe("query", q)
	got, ok := ref.Tree(ref.After(ref.Lex(q), "ON", "WHERE", "INNER"))
	sym.Assert(ok && got == shape, "C10 the join condition read with SQL precedence is the tree that was composed")
}

// Join conditions written as strings associate to the left.
func C10_join_strings() {
	n := 1 + sym.Choose("conditions", sym.Bound(4, 6))
	s, want := "ON c0 = z", "c0"
	for i := 1; i < n; i++ {
		col := "c" + ref.Itoa(i)
		op := []string{" AND ", " OR "}[sym.Choose("op", 2)]
		s += op + col + " = z"
		want = "(" + want + op + col + ")"
	}
	q, _ := lk.Select("x").From("t").Join("u", s).Where(eq("w", 1)).Query()
	got, ok := ref.Tree(ref.After(ref.Lex(q), "ON", "WHERE"))
	sym.Assert(ok && got == want, "C10 the operators of a join string are combined left to right")
}

// Groups used more than once in a composition, on either side, whole or in part.
func C10_shared() {
	on := sym.Choose("join", 2) == 1
	pool := []string{"c0", "c1"}
	var es []stmt.Expression
	var os []stmt.OnExpression
	for _, c := range pool {
		es = append(es, eq(c, 1))
		os = append(os, lk.On(c, "z"))
	}
	steps := 1 + sym.Choose("steps", sym.Bound(3, 4))
	for i := 0; i < steps; i++ {
		l, r := sym.Choose("left", len(pool)), sym.Choose("right", len(pool))
		op := sym.Choose("op", 2)
		pool = append(pool, "("+pool[l]+[]string{" AND ", " OR "}[op]+pool[r]+")")
		how := sym.Choose("how", 2)
		if on {
			var e stmt.OnExpression
			left := os[l]
			switch x := left.(type) {
			case stmt.OnClause:
				if how == 1 {
					if op == 0 {
						e = x.And(os[r])
					} else {
						e = x.Or(os[r])
					}
				}
			case stmt.InfixOnExpression:
				if how == 1 {
					if op == 0 {
						e = x.And(os[r])
					} else {
						e = x.Or(os[r])
					}
				}
			}
			if e == nil {
				if op == 0 {
					e = lk.AndOn(left, os[r])
				} else {
					e = lk.OrOn(left, os[r])
				}
			}
			os = append(os, e)
			continue
		}
		var e stmt.Expression
		if x, ok := es[l].(stmt.InfixExpression); ok && how == 1 {
			if op == 0 {
				e = x.And(es[r])
			} else {
				e = x.Or(es[r])
			}
		} else if op == 0 {
			e = lk.And(es[l], es[r])
		} else {
			e = lk.Or(es[l], es[r])
		}
		es = append(es, e)
	}
	want := pool[len(pool)-1]
	if !on {
		checkTree(lk.Delete("t").Where(es[len(es)-1]), "WHERE", want)
		return
	}
	q, _ := lk.Select("x").From("t").Join("u", os[len(os)-1]).Where(eq("w", 1)).Query()
	sym.Observe("query", q)
	got, ok := ref.Tree(ref.After(ref.Lex(q), "ON", "WHERE"))
	sym.Assert(ok && got == want, "C10 a join condition made of shared groups is the tree that was composed")
}
