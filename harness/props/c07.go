package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
)

func checkClauses(name string, k Kind, on func(string) bool, b builder.Builder, tmpl string, args []any_) {
	_, cs := clausesOf(k)
	s := take(b)
	for _, c := range cs {
		if need(k, c.Name) && !on(c.Name) {
			sym.Assert(!s.ok, "C07 a statement without "+c.Name+" is refused")
			return
		}
	}
	sym.Assert(s.ok, "C07 renders: "+name)
	sym.Observe("query", s.text)
	sym.Assert(ref.SameSQL(s.text, ref.Fill(tmpl, dollar)), "C07 each clause set appears once, no other, in SQL order: "+name)
	sym.Assert(ref.SameSQL(s.ntext, ref.Fill(tmpl, named)), "C07 each clause set appears once, no other, in SQL order (named): "+name)
	sym.Assert(SameArgs(s.args, args), "C07 the arguments follow the clauses: "+name)
}

// Every subset of the clauses.
func C07_subsets() {
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	has := func(name string) bool {
		for i, c := range cs {
			if c.Name == name {
				return on[i]
			}
		}
		return false
	}
	b := h.New()
	for i, c := range cs {
		on[i] = sym.Bool(c.Name)
		vs[i] = clauseValues(c)
		if on[i] {
			b = c.Apply(b, vs[i])
		}
	}
	tmpl, args := SQLText(h, cs, on, vs)
	checkClauses("subset", k, has, b, tmpl, args)
}

// ordered applies the clauses listed in order to a builder that already has those of base.
func c07Order(k Kind, n int, base int) {
	h, cs := clausesOf(k)
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	for i, c := range cs {
		vs[i] = clauseValues(c)
	}
	var order []int
	for j := 0; j < n; j++ {
		c := sym.Choose("clause", len(cs))
		sym.Assume(!on[c])
		on[c] = true
		order = append(order, c)
	}
	b := h.New()
	if base == 1 { // everything else first, last clause first
		for i := len(cs) - 1; i >= 0; i-- {
			if !on[i] {
				b = cs[i].Apply(b, vs[i])
			}
		}
	}
	for _, i := range order {
		b = cs[i].Apply(b, vs[i])
	}
	if base == 2 {
		for i := range cs {
			if !on[i] {
				b = cs[i].Apply(b, vs[i])
			}
		}
	}
	if base != 0 {
		for i := range cs {
			on[i] = true
		}
	}
	has := func(name string) bool {
		for i, c := range cs {
			if c.Name == name {
				return on[i]
			}
		}
		return false
	}
	tmpl, args := SQLText(h, cs, on, vs)
	checkClauses("order", k, has, b, tmpl, args)
}

// Any three clauses of a SELECT in any order: alone, after all the others, before all the others.
func C07_select() { c07Order(kSelect, sym.Bound(3, 4), sym.Choose("base", 3)) }

// Every permutation of every subset of the clauses of the other statements.
func C07_insert() { c07Order(kInsert, sym.Choose("n", 7), 0) }
func C07_update() { c07Order(kUpdate, sym.Choose("n", sym.Bound(7, 8)), 0) }
func C07_delete() { c07Order(kDelete, sym.Choose("n", 6), 0) }

// All clauses of a SELECT, rotated and reversed.
func C07_rotations() {
	h, cs := clausesOf(kSelect)
	var keep []Clause
	skip := []string{"Distinct", "DistinctOn", ""}[sym.Choose("skip", 3)]
	for _, c := range cs {
		if c.Name != skip {
			keep = append(keep, c)
		}
	}
	n := len(keep)
	on, vs := make([]bool, n), make([][]any_, n)
	for i, c := range keep {
		on[i], vs[i] = true, clauseValues(c)
	}
	first, dir := sym.Choose("first", n), 1-2*sym.Choose("backwards", 2)
	b := h.New()
	for j := 0; j < n; j++ {
		i := (first + dir*j + n) % n
		b = keep[i].Apply(b, vs[i])
	}
	tmpl, args := SQLText(h, keep, on, vs)
	checkClauses("rotation", kSelect, func(string) bool { return true }, b, tmpl, args)
}

// INSERT with Set: it is columns and values at once, in any order with the rest; refused with either of them.
func C07_insert_set() {
	v := []any_{sym.Int64("v"), sym.Int64("v"), sym.Int64("v")}
	fs := []func(b builder.Insert) builder.Insert{
		func(b builder.Insert) builder.Insert { return b.Into("t") },
		func(b builder.Insert) builder.Insert { return b.Set(lk.Pair("b", v[1]), lk.Pair("a", v[0])) },
		func(b builder.Insert) builder.Insert { return b.OnConflict("a", lk.DoUpdate(lk.Pair("c", v[2]))) },
		func(b builder.Insert) builder.Insert { return b.Returning("r") },
		func(b builder.Insert) builder.Insert { return b.Columns("p", "q") },
		func(b builder.Insert) builder.Insert { return b.Values(1, 2) },
	}
	used := [6]bool{}
	b := builder.NewInsert()
	n := 2 + sym.Choose("n", 4)
	ok := true
	for j := 0; j < n && ok; j++ {
		c := sym.Choose("clause", 6)
		sym.Assume(!used[c])
		used[c] = true
		ok, _ = Try(func() { b = fs[c](b) })
	}
	if used[1] && (used[4] || used[5]) {
		sym.Assert(!ok, "C07 Set together with Columns or Values is refused in either order")
		return
	}
	sym.Assert(ok, "C07 different clauses are accepted in any order")
	if !used[0] {
		sym.Assert(!take(b).ok, "C07 an INSERT without table is refused")
		return
	}
	want := `INSERT INTO "t"`
	var args []any_
	if used[1] {
		want += ` ("a", "b") VALUES (?, ?)`
		args = append(args, v[0], v[1])
	}
	if used[4] {
		want += ` ("p", "q")`
	}
	if used[5] {
		want += ` VALUES (?, ?)`
		args = append(args, 1, 2)
	}
	if used[2] {
		want += ` ON CONFLICT ("a") DO UPDATE SET "c" = ?`
		args = append(args, v[2])
	}
	if used[3] {
		want += ` RETURNING "r"`
	}
	s := take(b)
	sym.Assert(s.ok && ref.SameSQL(s.text, ref.Fill(want, dollar)) && SameArgs(s.args, args), "C07 INSERT with Set renders its clauses in SQL order")
}

// Clauses that carry a number, any number, in any order with the others.
func C07_numbers() {
	l, o := sym.Int64("limit"), sym.Int64("offset")
	sym.Assume(l > 0 && o >= 0)
	if sym.Bound(0, 1) == 0 {
		sym.Assume(l < 1000 && o < 1000)
	}
	fs := []func(b builder.Select) builder.Select{
		func(b builder.Select) builder.Select { return b.Limit(l) },
		func(b builder.Select) builder.Select { return b.Offset(o) },
		func(b builder.Select) builder.Select { return b.Distinct() },
		func(b builder.Select) builder.Select { return b.OrderBy(lk.Order("o")) },
		func(b builder.Select) builder.Select { return b.GroupBy("g") },
	}
	var used [5]bool
	b := lk.Select("x").From("t")
	n := 2 + sym.Choose("n", 4)
	for j := 0; j < n; j++ {
		c := sym.Choose("clause", len(fs))
		sym.Assume(!used[c])
		used[c] = true
		b = fs[c](b)
	}
	head := "SELECT "
	if used[2] {
		head += "DISTINCT "
	}
	head += `"x" FROM "t"`
	if used[4] {
		head += ` GROUP BY "g"`
	}
	if used[3] {
		head += " ORDER BY o ASC"
	}
	if !used[0] {
		l = 0
	}
	if !used[1] {
		o = 0
	}
	q, _ := b.Query()
	sym.Observe("query", q)
	sym.Assert(limits(q, head, l, o), "C07 clauses with numbers in any order")
}

// Any two clauses, each in any of its forms, in either order, alone or among all the others: the statement is made of
// what each of them renders on its own, in SQL order.
func c07Forms(k Kind) {
	sym.MapOrder(1)
	h, cs := clausesOf(k)
	first, second := sym.Choose("first", len(cs)), sym.Choose("second", len(cs))
	sym.Assume(first != second)
	rest := sym.Choose("rest", sym.Bound(1, 2)) == 1
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	frags := append([]Clause(nil), cs...)
	type call = func(b builder.Builder) builder.Builder
	var calls []call
	for _, c := range []int{first, second} {
		fs := formsOf(k, cs[c].Name)
		f := fs[sym.Choose("form", len(fs))]
		v := []any_{sym.Int64("v"), sym.Int64("v")}
		apply := func(b builder.Builder) builder.Builder { return f(b, v) }
		frag, args, ok := aloneOf(k, c, apply)
		sym.Assert(ok, "C07 a clause is added to the statement: "+cs[c].Name)
		on[c], vs[c] = true, args
		frags[c].Frag = frag
		calls = append(calls, apply)
	}
	b := h.New()
	for i := range cs {
		if !on[i] && (need(k, cs[i].Name) || rest) {
			on[i], vs[i] = true, plainValues(cs[i])
			b = cs[i].Apply(b, vs[i])
		}
	}
	for _, f := range calls {
		b = f(b)
	}
	tmpl, args := SQLText(h, frags, on, vs)
	checkClauses("forms", k, func(string) bool { return true }, b, tmpl, args)
}

func C07_select_forms() { c07Forms(kSelect) }
func C07_insert_forms() { c07Forms(kInsert) }
func C07_update_forms() { c07Forms(kUpdate) }
func C07_delete_forms() { c07Forms(kDelete) }
