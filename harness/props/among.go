package props

import (
	"strings"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// Every clause with values among other clauses: strings of any length and content.
func C01_context() {
	s := anyValueSubject()
	v := make([]any_, ref.Marks(s.Frag))
	for i := range v {
		v[i] = sym.Text("v", 0, 24)
	}
	b, tmpl, _, label := inContext(s, v)
	q, _ := b.Query()
	nq, _ := b.NamedQuery()
	sym.Observe("query", q)
	sym.Assert(ref.SameSQL(q, ref.Fill(tmpl, dollar)), "C01 the text of Query() holds nothing but a placeholder for each value: "+label)
	sym.Assert(ref.SameSQL(nq, ref.Fill(tmpl, named)), "C01 the text of NamedQuery() holds nothing but a placeholder for each value: "+label)
}

// Every clause with values among other clauses: numbers, all of them or all but one, which is nil.
func C02_context() {
	s := anyValueSubject()
	v := make([]any_, ref.Marks(s.Frag))
	for i := range v {
		v[i] = sym.Int64("v")
	}
	if at := sym.Choose("nil", 3); at > 0 && len(v) > 0 {
		i := []int{0, len(v) - 1}[at-1]
		sym.Assume(at == 1 || i > 0)
		v[i] = nil
	}
	b, tmpl, args, label := inContext(s, v)
	nils := make([]bool, len(args))
	for i := range args {
		nils[i] = args[i] == nil
	}
	checkPlaceholders(label, tmpl, b, nils, args)
}

// Values at every place, among other clauses.
func C03_context() {
	ps := places()
	p := ps[sym.Choose("place", len(ps))]
	v := make([]any_, ref.Marks(p.Tmpl))
	for i := range v {
		v[i] = []any_{-7, "it's", true, nil}[i%4]
	}
	tmpl := ref.Fill(p.Tmpl, func(i int) string { return []string{"?", "?", "?", "NULL"}[i%4] })
	b := p.Build(v)
	c := anyContext(kindOf(b), tmpl)
	checkRenderings(p.Name+c.label, c.add(b))
}

// Every site of a name among other clauses.
func C04_context() {
	ss := nameSites()
	s := ss[sym.Choose("site", len(ss))]
	n := sym.Str("name", 2)
	if s.Trim {
		trimmedName(n)
	}
	b := s.Build(n)
	c := anyContext(kindOf(b), ref.Fill(s.Tmpl, func(int) string { return `"QN"` }))
	t := take(c.add(b))
	want := func(ph func(int) string) string {
		return strings.ReplaceAll(ref.Fill(c.tmpl, ph), `"QN"`, ref.Quote(n))
	}
	sym.Observe("query", t.text)
	sym.Assert(t.ok && ref.SameSQL(t.text, want(dollar)), "C04 the name is one delimited identifier denoting it (Query): "+s.Name+c.label)
	sym.Assert(ref.SameSQL(t.ntext, want(named)), "C04 the name is one delimited identifier denoting it (NamedQuery): "+s.Name+c.label)
}

// condClause puts a condition with a template into one of the clauses that take one.
func condClause(e stmt.Expression, tmpl string, n int) Subject {
	return condSubject(Cond{"", tmpl, func([]any_) stmt.Expression { return e }}, n)
}

// Conditions of every form among other clauses, whatever comes first.
func C09_context() {
	v := sym.Int64("v")
	col := "c" + sym.Str("column", 1)
	sym.Assume(col[1] != '?' && col[1] != ',') // the mark of the templates; the comma separates columns
	k := sym.Choose("condition", nGood)
	sym.Assume(k != 17 || col[1] != '"' && col[1] != '\'') // raw text that opens a quote
	n := sym.Choose("clause", 4)
	e := goodCond(k, col, v)
	// what the condition is on its own
	own := take(lk.Delete("t").Where(e))
	sym.Assert(own.ok, "C09 accepted")
	const head = `DELETE FROM "t" WHERE `
	sym.Assert(len(own.text) > len(head) && own.text[:len(head)] == head, "C09 the condition is rendered")
	cond := replaceMarks(own.text[len(head):], func(int) string { return "?" })
	b, tmpl, args, label := inContext(condClause(e, cond, n), own.args)
	checkTemplate(b, tmpl, args, "C09 the condition among other clauses: "+label)
}

// An undefined condition is refused among other clauses too.
func C09_undefined_context() {
	k := sym.Choose("condition", nBad)
	s := condClause(badCond(k, eq("a", 1), 2), "(x)", sym.Choose("clause", 4))
	h, cs := clausesOf(s.Kind)
	b := h.New()
	mode := sym.Choose("context", 3)
	other := -1
	if mode > 0 {
		other = sym.Choose("other", len(cs))
		sym.Assume(cs[other].Name != s.Clause)
	}
	ok, _ := Try(func() {
		use := func(i int) {
			fs := formsOf(s.Kind, cs[i].Name)
			b = fs[sym.Choose("form", len(fs))](b, []any_{901, "other"})
		}
		if mode == 1 {
			use(other)
		}
		b = s.Apply(b, nil)
		if mode == 2 {
			use(other)
		}
		for i := range cs {
			if i != other && need(s.Kind, cs[i].Name) {
				b = cs[i].Apply(b, plainValues(cs[i]))
			}
		}
	})
	if !ok {
		return
	}
	q, _ := Try(func() { b.Query() })
	d, _ := Try(func() { _ = b.String() })
	sym.Assert(!q && !d, "C09 an undefined condition is refused among other clauses")
}

// condText is the template of the shape of a tree whose leaves are comparisons.
func condText(shape string) string {
	out := ""
	for i := 0; i < len(shape); i++ {
		if shape[i] != 'c' {
			out += shape[i : i+1]
			continue
		}
		j := i + 1
		for j < len(shape) && shape[j] >= '0' && shape[j] <= '9' {
			j++
		}
		out += `("` + shape[i:j] + `" = 7)`
		i = j - 1
	}
	return out
}

// rawTree composes an arbitrary tree of n comparisons with 7.
func rawTree(n int, next *int) (stmt.Expression, string) {
	if n == 1 {
		col := "c" + ref.Itoa(*next)
		*next++
		return eq(col, lk.Raw("7")), col
	}
	l := 1 + sym.Choose("left", n-1)
	left, ls := rawTree(l, next)
	right, rs := rawTree(n-l, next)
	op := sym.Choose("op", 2)
	shape := "(" + ls + []string{" AND ", " OR "}[op] + rs + ")"
	x := left.(stmt.InfixExpression)
	switch {
	case op == 0 && n%2 == 0:
		return x.And(right), shape
	case op == 0:
		return lk.And(left, right), shape
	case n%2 == 0:
		return x.Or(right), shape
	}
	return lk.Or(left, right), shape
}

// Trees, composed at once or by two calls, among other clauses.
func C10_context() {
	next := 0
	n := sym.Choose("clause", 4)
	e, shape := rawTree(1+sym.Choose("leaves", 3), &next)
	s := condClause(e, condText(shape), n)
	if how := sym.Choose("calls", 4); how > 0 && n != 1 {
		f, other := rawTree(1+sym.Choose("leaves", 2), &next)
		s.Frag = "WHERE " + condText("("+shape+[]string{" AND ", " AND ", " OR "}[how-1]+other+")")
		s.Apply = func(b builder.Builder, v []any_) builder.Builder { return where(where(b, 0, e), how-1, f) }
	}
	s.Plain = next > 2
	b, tmpl, args, label := inContext(s, nil)
	checkTemplate(b, tmpl, args, "C10 the tree among other clauses: "+label)
}

// Every comparison, in every clause, among other clauses.
func C11_context() {
	cs := conds()
	k := sym.Choose("condition", len(cs))
	s := condSubject(cs[k], sym.Choose("clause", 4))
	s.Plain = k%sym.Bound(6, 2) != 0
	v := make([]any_, ref.Marks(s.Frag))
	for i := range v {
		v[i] = sym.Int64("v")
	}
	b, tmpl, args, label := inContext(s, v)
	checkTemplate(b, tmpl, args, "C11 the comparison among other clauses: "+label)
}

// Assignments, two of which may be to the same column, among other clauses.
func C12_context() {
	sym.MapOrder(1)
	target := sym.Choose("target", 3)
	var ws []write
	var calls [][]any_
	for i := 0; i < 3; i++ {
		c := []string{"cm", "", "ca"}[i]
		if i == 1 {
			c = anyColumn(1)
		}
		v := any_(sym.Int64("v"))
		if i == 0 {
			v = subq(v)
			ws = append(ws, write{c, cell{v, "(" + subj + ")", nil}})
		} else {
			ws = append(ws, write{c, v})
		}
		arg := any_(lk.Pair(c, v))
		if i == 2 {
			arg = lk.Map{c: v}
		}
		calls = append(calls, []any_{arg})
	}
	ws[0].v = cell{nil, "(" + subj + ")", []any_{sym.Int64("w")}}
	calls[0] = []any_{lk.Pair("cm", subq(ws[0].v.(cell).args[0]))}
	cols, vals := lastWrites(ws)
	var args []any_
	for _, v := range vals {
		if c, ok := v.(cell); ok {
			args = append(args, c.args...)
		} else {
			args = append(args, v)
		}
	}
	checkAmong(setBuilder(target, calls), setText(target, cols, vals, func(int) string { return "?" }), args, "C12 "+targets[target])
}

// Assignments made before and after any other clause.
func C12_between() {
	v := []any_{sym.Int64("v"), sym.Int64("v"), sym.Int64("v")}
	c := anyColumn(1)
	ws := []write{{"cm", v[0]}, {c, v[1]}, {"cx", v[2]}}
	cols, vals := lastWrites(ws)
	text := setText(0, cols, vals, func(int) string { return "?" })
	s := Subject{"UPDATE SET", kUpdate, "Set", text[len("UPDATE "):], nil, false}
	split := 1 + sym.Choose("split", 2)
	checkBetween(s, vals, func(b builder.Builder) builder.Builder {
		u := b.(builder.Update)
		for _, w := range ws[:split] {
			u = u.Set(lk.Pair(w.col, w.v))
		}
		return u
	}, func(b builder.Builder) builder.Builder {
		u := b.(builder.Update)
		for _, w := range ws[split:] {
			u = u.Set(lk.Map{w.col: w.v})
		}
		return u
	}, "C12 assignments before and after another clause")
}

// checkBetween states that a clause given by two calls is the same with any other clause, in any form, between them.
func checkBetween(s Subject, v []any_, first, second func(b builder.Builder) builder.Builder, what string) {
	h, cs := clausesOf(s.Kind)
	other := sym.Choose("other", len(cs))
	sym.Assume(cs[other].Name != s.Clause && cs[other].Name != "Distinct")
	fs := formsOf(s.Kind, cs[other].Name)
	f := fs[sym.Choose("form", len(fs))]
	w := []any_{901, "other"}
	frag, wargs, ok := aloneOf(s.Kind, other, func(b builder.Builder) builder.Builder { return f(b, w) })
	sym.Assert(ok, what+": the other renders alone")
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	b := h.New()
	for i := range cs {
		switch {
		case cs[i].Name == s.Clause:
			on[i], vs[i], cs[i].Frag = true, v, s.Frag
		case i == other:
			on[i], vs[i], cs[i].Frag = true, wargs, frag
		case need(s.Kind, cs[i].Name):
			on[i], vs[i] = true, plainValues(cs[i])
			b = cs[i].Apply(b, vs[i])
		}
	}
	b = second(f(first(b), w))
	tmpl, args := SQLText(h, cs, on, vs)
	checkTemplate(b, tmpl, args, what+", "+cs[other].Name)
}

// Clauses that accumulate, with any other clause between two calls.
func C24_between() {
	v := []any_{sym.Int64("v"), sym.Int64("v")}
	n := "n" + sym.Str("name", 1)
	sym.Assume(n[1] != '?')
	type fn = func(b builder.Builder) builder.Builder
	type two struct {
		s             Subject
		v             []any_
		first, second fn
	}
	onSelect := func(f func(b builder.Select) builder.Select) fn {
		return func(b builder.Builder) builder.Builder { return f(b.(builder.Select)) }
	}
	onUpdate := func(f func(b builder.Update) builder.Update) fn {
		return func(b builder.Builder) builder.Builder { return f(b.(builder.Update)) }
	}
	N := ref.Quote(n)
	sub := "(" + subj + ")"
	all := []two{
		{Subject{"WITH", kSelect, "With", "WITH c1 AS " + sub + ", c2 AS " + sub, nil, false}, v,
			onSelect(func(b builder.Select) builder.Select { return b.With(lk.With("c1", subq(v[0]))) }),
			onSelect(func(b builder.Select) builder.Select { return b.With(lk.With("c2", subq(v[1]))) })},
		{Subject{"WITH", kUpdate, "With", "WITH c1 AS " + sub + ", c2 AS " + sub, nil, false}, v,
			onUpdate(func(b builder.Update) builder.Update { return b.With(lk.With("c1", subq(v[0]))) }),
			onUpdate(func(b builder.Update) builder.Update { return b.With(lk.With("c2", subq(v[1]))) })},
		{Subject{"JOIN", kSelect, "Join", "INNER JOIN " + N + ` ON "a" = "b" LEFT JOIN "k" AS "z" ON ("c" = "d" OR "e" = "f")`, nil, false}, nil,
			onSelect(func(b builder.Select) builder.Select { return b.Join(n, "ON a = b") }),
			onSelect(func(b builder.Select) builder.Select {
				return b.Join(lk.Table("k").As("z"), lk.OrOn(lk.On("c", "d"), lk.On("e", "f")), lk.LeftJoin)
			})},
		{Subject{"ORDER BY", kSelect, "OrderBy", "ORDER BY o1 DESC, o2 ASC, o1 ASC", nil, false}, nil,
			onSelect(func(b builder.Select) builder.Select { return b.OrderBy(lk.Order("o1", lk.Desc)) }),
			onSelect(func(b builder.Select) builder.Select { return b.OrderBy(lk.Order("o2"), lk.Order("o1")) })},
		{Subject{"USING", kUpdate, "Set", `"t" SET ("a", ` + N + `) = (?, ?)`, nil, false}, v,
			onUpdate(func(b builder.Update) builder.Update { return b.Set("a", lk.Column(n)).Using(v[0]) }),
			onUpdate(func(b builder.Update) builder.Update { return b.Using(v[1]) })},
		{Subject{"SET columns", kUpdate, "Set", `"t" SET ("a", ` + N + `) = (?, ?)`, nil, false}, v,
			onUpdate(func(b builder.Update) builder.Update { return b.Set("a") }),
			onUpdate(func(b builder.Update) builder.Update { return b.Set(lk.Column(n)).Using(v[0], v[1]) })},
	}
	c := all[sym.Choose("clause", len(all))]
	checkBetween(c.s, c.v, c.first, c.second, "C24 accumulated: "+c.s.Name)
}

// Conditions accumulate with any other clause between two calls.
func C09_between() {
	n := sym.Choose("clause", 3)
	v := []any_{sym.Int64("v"), sym.Int64("v")}
	how := sym.Choose("method", 3)
	s := condClause(nil, `(("p" = ?)`+[]string{" AND ", " AND ", " OR "}[how]+`("q" < ?))`, []int{0, 2, 3}[n])
	checkBetween(s, v, func(b builder.Builder) builder.Builder { return where(b, 0, eq("p", v[0])) },
		func(b builder.Builder) builder.Builder { return where(b, how, lk.Condition("q").LessThan(v[1])) }, "C09 conditions before and after another clause")
}

// Rows of every slice type, and rows of the forms, among other clauses.
func C13_context() {
	k := sym.Choose("type", nRowSlices+2)
	var given []any_
	var rows [][]cell
	switch k {
	case nRowSlices:
		rows = [][]cell{{anyCell(0), anyCell(8), anyCell(4)}}
		for _, c := range rows[0] {
			given = append(given, c.given)
		}
	case nRowSlices + 1:
		rows = [][]cell{{anyCell(2)}}
		given = []any_{rows[0][0].given}
	default:
		var g any_
		g, rows = rowSlice(k, []int{3, 3})
		given = []any_{g}
	}
	for _, r := range rows {
		for _, c := range r {
			sym.Assume(ref.Marks(c.text) == len(c.args))
		}
	}
	text, args := rowsText(rows)
	b := lk.Insert("t")
	head := `INSERT INTO "t"`
	if sym.Choose("columns", 2) == 1 {
		b, head = b.Columns("x", "y", "z"), head+` ("x", "y", "z")`
	}
	checkAmong(b.Values(given...), head+" VALUES "+text, args, "C13 rows "+ref.Itoa(k))
}

// Well-formed and malformed ON CONFLICT clauses among other clauses.
func C14_context() {
	sym.MapOrder(1)
	a := conflictArgOf(sym.Choose("action", 11))
	target := sym.Choose("target", 2) == 1
	h, cs := clausesOf(kInsert)
	_ = h
	other := sym.Choose("other", len(cs))
	sym.Assume(cs[other].Name != "OnConflict" && cs[other].Name != "Into")
	fs := formsOf(kInsert, cs[other].Name)
	f := fs[sym.Choose("form", len(fs))]
	w := []any_{901, "other"}
	frag, wargs, ok := aloneOf(kInsert, other, func(b builder.Builder) builder.Builder { return f(b, w) })
	sym.Assert(ok, "C14 the other clause renders alone")
	first := sym.Choose("first", 2) == 1
	var s snap
	ok, crash := Try(func() {
		var b builder.Builder = lk.Insert("t")
		if first {
			b = f(b, w)
		}
		args := []any_{a.given}
		if target {
			args = []any_{"c", a.given}
		}
		b = b.(builder.Insert).OnConflict(args...)
		if !first {
			b = f(b, w)
		}
		s = take(b)
	})
	sym.Assert(!crash, "C14 refused by the library, not by a crash")
	if a.action == "" || a.update && !target {
		sym.Assert(!ok || !s.ok, "C14 malformed arguments are refused among other clauses")
		return
	}
	text := "ON CONFLICT "
	if target {
		text += `("c") `
	}
	text += a.action
	tmpl, args := `INSERT INTO "t" `+frag+" "+text, append(append([]any_{}, wargs...), a.args...)
	if n := cs[other].Name; n == "Returning" || n == "Comment" {
		tmpl, args = `INSERT INTO "t" `+text+" "+frag, append(append([]any_{}, a.args...), wargs...)
	}
	sym.Observe("query", s.text)
	sym.Assert(ok && s.ok, "C14 well-formed arguments are accepted among other clauses")
	sym.Assert(ref.SameSQL(s.text, ref.Fill(tmpl, dollar)), "C14 target and action as given among other clauses")
	sym.Assert(SameArgs(s.args, args), "C14 assigned values among other clauses")
}

// The number among other clauses: the text around it stays, the digits are those of the number.
func C15_context() {
	k := sym.Choose("clause", 2)
	name := []string{"Limit", "Offset"}[k]
	word := []string{"LIMIT ", "OFFSET "}[k]
	n := sym.Int64("n")
	sym.Assume(n > 0)
	build := func(v any_) func(b builder.Builder, _ []any_) builder.Builder {
		return sel(func(b builder.Select, _ []any_) builder.Select {
			if k == 0 {
				return b.Limit(v)
			}
			return b.Offset(v)
		})
	}
	v := any_(n)
	switch sym.Choose("type", 3) {
	case 1:
		v = uint64(n)
	case 2:
		if k == 0 {
			v = lk.Limit(n)
		} else {
			v = lk.Offset(n)
		}
	}
	t := anySetting(Subject{name, kSelect, name, word + "987654", nil, false}, nil)
	b := t.build(build(987654))
	checkTemplate(b, t.tmpl, t.args, "C15 around the number: "+t.label)
	twin := take(b)
	at := strings.LastIndex(twin.text, word+"987654")
	sym.Assert(at >= 0, "C15 the clause is there: "+t.label)
	at += len(word)
	tail := twin.text[at+6:]
	// the same with the number
	q := take(t.build(build(v)))
	sym.Observe("query", q.text)
	sym.Assert(q.ok && len(q.text) > at+len(tail) && q.text[:at] == twin.text[:at] && q.text[len(q.text)-len(tail):] == tail, "C15 the rest of the statement stays: "+t.label)
	got, ok := decimal(q.text[at : len(q.text)-len(tail)])
	sym.Assert(ok && got == n, "C15 exactly the number: "+t.label)
}

// Join strings, and joins from parts, among other clauses.
func C16_context() {
	j := anyShape(1 + sym.Choose("conditions", 2))
	j.table, j.on = "t"+anyLetter(), true
	j.sides[1] = anyLetter() + "." + anyLetter()
	sp := plainSpelling()
	sp.paren = sym.Choose("parentheses", 2)
	text := j.text(sp)
	s := Subject{"join", kSelect, "Join", j.clause(j.table), sel(func(b builder.Select, v []any_) builder.Select { return b.Join(text) }), len(j.or) > 0}
	b, tmpl, args, label := inContext(s, nil)
	checkTemplate(b, tmpl, args, "C16 a join string among other clauses: "+label)
}

// A comment on two clauses in any of their forms.
func C19_any_forms() {
	b, name := someForms([]any_{-5, "it's"})
	c := sym.Str("comment", 2)
	plain := take(b)
	if !plain.ok || strings.Contains(plain.text, "; --") {
		return
	}
	got := take(withComment(b, c))
	sym.Observe("query", got.text)
	sym.Assert(got.ok && commented(got.text, plain.text, c) && commented(got.ntext, plain.ntext, c), "C19 the comment follows the statement on its line: "+name)
	sym.Assert(SameArgs(got.args, plain.args) && len(got.nargs) == len(plain.nargs), "C19 the arguments stay the same: "+name)
}

// Lists of every slice type in every clause, among other clauses.
func C20_context() {
	k := sym.Choose("type", nSlices+1)
	forms := listForms()
	form := forms[sym.Choose("form", len(forms))]
	var given []any_
	var elems []any_
	if k == nSlices {
		elems = []any_{sym.Int64("element"), sym.Text("element", 0, 8), sym.Bool("element")}
		given = elems
	} else {
		var g any_
		g, elems = MakeSlice(sliceNames[k], k, 2)
		given = []any_{g}
	}
	list := "?" + repeat(", ?", len(elems)-1)
	s := condClause(form.Build(given...), "("+form.Tmpl+" ("+list+"))", sym.Choose("clause", 4))
	s.Plain = k%sym.Bound(5, 2) != 0
	b, tmpl, args, label := inContext(s, elems)
	checkTemplate(b, tmpl, args, "C20 a list among other clauses: "+label)
}

// Literals of several kinds at every place for values, among other clauses.
func C21_context() {
	s := anyValueSubject()
	s.Plain = true
	n := ref.Marks(s.Frag)
	v, text := make([]any_, n), make([]string, n)
	x := sym.Str("value", 1)
	sym.Assume(x[0] < 0x80)
	k := sym.Choose("kind", 3)
	for i := range v {
		v[i] = []any_{int64(-1 - i), []byte{0xAB, byte(i)}, x}[k]
		text[i] = []string{"-" + ref.Itoa(1+i), "decode('ab0" + ref.Itoa(i) + "', 'hex')", "?"}[k]
	}
	t := anySetting(s, v)
	b := t.build(s.Apply)
	got := b.String()
	sym.Observe("text", got)
	if k < 2 {
		i := 0
		want := ref.Fill(t.tmpl, func(j int) string {
			if i < n && Same(t.args[j], v[i]) {
				i++
				return text[i-1]
			}
			return literalOf(t.args[j])
		})
		sym.Assert(i == n && ref.SameDebug(got, want), "C21 literals among other clauses: "+t.label)
		return
	}
	// a string is the literal it is on its own
	lit := lk.Delete("t").Where(eq("a", x)).String()
	const head = `DELETE FROM "t" WHERE ("a" = `
	lit = lit[len(head) : len(lit)-1]
	sym.Assert(ref.SameDebug(got, ref.Fill(t.tmpl, func(j int) string {
		if _, ok := t.args[j].(string); ok && t.args[j] != "other" {
			return lit
		}
		return literalOf(t.args[j])
	})), "C21 literals among other clauses: "+t.label)
}

// literalOf is the literal of a plain value.
func literalOf(v any_) string {
	switch x := v.(type) {
	case int:
		return ref.Itoa(x)
	case string:
		return "'" + x + "'"
	case nil:
		return "NULL"
	}
	panic("harness: no literal")
}

// Values of every kind in every clause with values, among all other clauses.
func C22_context() {
	s := anyValueSubject()
	s.Plain = true
	k := []int{0, 1, 3, 11, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 27, 28, 30, 33}[sym.Choose("kind", 18)]
	n := ref.Marks(s.Frag)
	given, want := make([]any_, n), make([]any_, n)
	for i := range given {
		given[i], want[i] = MakeValue("v", k)
	}
	t := anySetting(s, want)
	q := take(t.build(func(b builder.Builder, _ []any_) builder.Builder { return s.Apply(b, given) }))
	sym.Assert(q.ok, "C22 accepted among other clauses: "+t.label+" "+kindNames[k])
	sym.Assert(SameArgs(q.args, t.args), "C22 bound unchanged among other clauses: "+t.label+" "+kindNames[k])
}

// A subquery at every site, among other clauses of the statement around it.
func C23_context() {
	ss := subSites()
	site := ss[sym.Choose("site", len(ss))]
	s, tmpl, args := subShape(0)
	v := outerValues()
	full, all := site.place(tmpl, args, v)
	checkAmong(site.Build(s, v), full, all, "C23 embedded whole: "+site.Name)
}

// Lists of result columns, columns, tables and orders of arbitrary names among other clauses.
func C24_context() {
	n := sym.Choose("length", 3) + 1
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, anyLetter())
	}
	var lists []listClause
	k := sym.Choose("list", 3)
	switch k {
	case 0:
		lists = selectLists()
	case 1:
		lists = columnLists()
	default:
		lists = tableLists()
	}
	l := lists[sym.Choose("clause", len(lists))]
	form := 0
	if k < 2 {
		form = []int{0, 1, 3, 4, 5}[sym.Choose("form", 5)]
	}
	var args []any_
	if k < 2 {
		args = columnForm(form, names)
	} else {
		for i := range names {
			if i%2 == 0 {
				args = append(args, names[i])
			} else {
				args = append(args, lk.Table(names[i]))
			}
		}
	}
	checkAmong(l.Build(args...), listOf(l.Tmpl, quoted(names)), nil, "C24 every element among other clauses: "+l.Name)
}

// The predicates, whatever the form of the clauses.
func C25_forms() {
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	b := h.New()
	for i := 0; i < 2; i++ {
		c := sym.Choose("clause", len(cs))
		fs := formsOf(k, cs[c].Name)
		f := fs[sym.Choose("form", len(fs))]
		ok, _ := Try(func() { b = f(b, []any_{1, "other"}) })
		if !ok {
			return
		}
		checkKind(b, k, "after "+cs[c].Name)
	}
	checkKinds(b, k)
}

// The predicates of statements with values of every kind.
func C25_values() {
	s := anyValueSubject()
	s.Plain = true
	kind := sym.Choose("value", nKinds)
	v := make([]any_, ref.Marks(s.Frag))
	for i := range v {
		v[i], _ = MakeValue("v", kind)
	}
	b, _, _, _ := inContext(s, v)
	checkKinds(b, s.Kind)
}

// What is refused on its own is refused among other clauses.
func C26_context() {
	var build func() builder.Builder
	var name string
	switch sym.Choose("what", 3) {
	case 0:
		all := malformed()
		c := all[sym.Choose("case", len(all))]
		build, name = c.build, c.name
	case 1:
		cs := noColumn("")
		c := cs[sym.Choose("condition", len(cs))]
		fs := filters()
		f := fs[sym.Choose("place", len(fs))]
		build, name = func() builder.Builder { return f.Build(c) }, f.Name
	case 2:
		cs, ts, oc, ot := columnEntries(), tableEntries(), oneColumn(), oneTable()
		all := append(append(append(append([]entry{}, cs...), ts...), oc...), ot...)
		e := all[sym.Choose("entry", len(all))]
		build, name = func() builder.Builder { return e.Build("") }, e.Name
	}
	var b builder.Builder
	if ok, _ := Try(func() { b = build() }); !ok {
		sym.Assert(true, "C26 refused at once")
		return
	}
	k := kindOf(b)
	_, cs := clausesOf(k)
	add := func(f func(b builder.Builder, v []any_) builder.Builder) {
		Try(func() { b = f(b, []any_{901, "other"}) })
	}
	if sym.Choose("all", 2) == 1 {
		for i := range cs {
			if !need(k, cs[i].Name) && cs[i].Name != "From" && cs[i].Name != "Distinct" {
				add(cs[i].Apply)
			}
		}
	} else {
		i := sym.Choose("other", len(cs))
		sym.Assume(!need(k, cs[i].Name) && cs[i].Name != "From")
		fs := formsOf(k, cs[i].Name)
		add(fs[sym.Choose("form", len(fs))])
	}
	q, _ := Try(func() { t, _ := b.Query(); sym.Observe("query", t) })
	s, _ := Try(func() { _ = b.String() })
	sym.Assert(!q && !s, "C26 refused among other clauses: "+name)
}

// Fragments at every site, among other clauses.
func C27_context() {
	ss := fragSites()
	s := ss[sym.Choose("site", len(ss))]
	sym.Assume(!strings.HasPrefix(s.Name, "suffix") || strings.Contains(s.Name, " of "))
	f := "q" + sym.Str("fragment", 1)
	v := make([]any_, ref.Marks(s.Tmpl))
	for i := range v {
		v[i] = sym.Int64("value")
	}
	b := s.Build("QZ", v)
	c := anyContext(kindOf(b), s.Tmpl)
	twin := c.add(b)
	checkTemplate(twin, c.tmpl, c.args(v), "C27 around the fragment: "+s.Name+c.label)
	w, g := take(twin), take(c.add(s.Build(f, v)))
	sym.Observe("query", g.text)
	head, tail, ok := split(w.text)
	sym.Assert(ok && g.ok && g.text == head+f+tail, "C27 verbatim in Query: "+s.Name+c.label)
	sym.Assert(SameArgs(g.args, w.args), "C27 values: "+s.Name+c.label)
}

// Prefix, suffix, orders and a raw element of each list, each of any text, in any setting.
func C27_settings() {
	f := sym.Str("fragment", sym.Choose("length", 2)+1)
	k := sym.Choose("fragment of", 6)
	s := []Subject{
		{"prefix", kSelect, "Prefix", "QZ", nil, false},
		{"suffix", kSelect, "Suffix", "QZ", nil, false},
		{"order", kSelect, "OrderBy", "ORDER BY o1 ASC, QZ DESC", nil, false},
		{"raw column", kSelect, "Columns", `"x", QZ, COUNT(y) AS z`, nil, false},
		{"raw table", kSelect, "From", `FROM "t1", QZ`, nil, false},
		{"CTE", kUpdate, "With", `WITH QZ AS (SELECT "i" FROM "j")`, nil, false},
	}[k]
	apply := func(f string) func(b builder.Builder, v []any_) builder.Builder {
		return func(b builder.Builder, v []any_) builder.Builder {
			switch k {
			case 0:
				return b.(builder.Select).Prefix(f)
			case 1:
				return b.(builder.Select).Suffix(f)
			case 2:
				return b.(builder.Select).OrderBy(lk.Order("o1"), lk.Order(f, lk.Desc))
			case 3:
				return b.(builder.Select).Columns("x", lk.Raw(f), lk.Count("y").As("z"))
			case 4:
				return b.(builder.Select).From("t1", lk.Raw(f))
			}
			return b.(builder.Update).With(lk.With(f, lk.Select("i").From("j")))
		}
	}
	t := anySetting(s, nil)
	twin := t.build(apply("QZ"))
	checkTemplate(twin, t.tmpl, t.args, "C27 around the fragment: "+t.label)
	w, g := take(twin), take(t.build(apply(f)))
	sym.Observe("query", g.text)
	head, tail, ok := split(w.text)
	sym.Assert(ok && g.ok && g.text == head+f+tail, "C27 verbatim in Query: "+t.label)
	sym.Assert(SameArgs(g.args, w.args), "C27 values: "+t.label)
}
