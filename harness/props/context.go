package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// Subject is a clause under test: Frag is what it adds to the statement, with '?' for its values.
type Subject struct {
	Name   string
	Kind   Kind
	Clause string
	Frag   string
	Apply  func(b builder.Builder, v []any_) builder.Builder
	Plain  bool // the other clauses only as they are commonly written
}

// setting is a statement with a place for a clause among others: its text with '?' for values, these, and the
// builder with the clause, however that is given.
type setting struct {
	tmpl  string
	args  []any_
	label string
	build func(apply func(b builder.Builder, v []any_) builder.Builder) builder.Builder
}

// inContext is a builder with a clause in any setting, its text with '?' for values, and these.
func inContext(s Subject, v []any_) (b builder.Builder, tmpl string, args []any_, label string) {
	t := anySetting(s, v)
	return t.build(s.Apply), t.tmpl, t.args, t.label
}

// anySetting puts a clause into a statement with other clauses: none, all of the others called before it or after it,
// or one other, in any of its forms, before or after it.
func anySetting(s Subject, v []any_) setting {
	h, cs := clausesOf(s.Kind)
	c := -1
	for i := range cs {
		if cs[i].Name == s.Clause {
			c = i
		}
	}
	cs[c].Frag = s.Frag
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	on[c], vs[c] = true, v
	modes := 5
	if s.Plain {
		modes = 3
	}
	mode := sym.Choose("context", modes)
	label := s.Name + [5]string{" alone", " after the other clauses", " before the other clauses", " after ", " before "}[mode]
	clash := func(i int) bool {
		return i == c || cs[i].Name == "Distinct" || cs[c].Name == "Distinct" && cs[i].Name == "DistinctOn"
	}
	apply := func(i int, b builder.Builder) builder.Builder { return cs[i].Apply(b, vs[i]) }
	for i := range cs {
		if !on[i] && (need(s.Kind, cs[i].Name) || (mode == 1 || mode == 2) && !clash(i)) {
			on[i], vs[i] = true, plainValues(cs[i])
		}
	}
	if mode > 2 {
		other := sym.Choose("other", len(cs))
		sym.Assume(!clash(other))
		label += cs[other].Name
		fs := formsOf(s.Kind, cs[other].Name)
		f := fs[sym.Choose("form", len(fs))]
		w := []any_{901, "other"}
		frag, wargs, ok := aloneOf(s.Kind, other, func(b builder.Builder) builder.Builder { return f(b, w) })
		sym.Assert(ok, label+": renders alone")
		cs[other].Frag, on[other], vs[other] = frag, true, wargs
		apply = func(i int, b builder.Builder) builder.Builder {
			if i == other {
				return f(b, w)
			}
			return cs[i].Apply(b, vs[i])
		}
	}
	build := func(own func(b builder.Builder, v []any_) builder.Builder) builder.Builder {
		b := h.New()
		before := mode == 0 || mode == 1 || mode == 3
		if !before {
			b = own(b, v)
		}
		for i := range cs {
			if on[i] && i != c {
				b = apply(i, b)
			}
		}
		if before {
			b = own(b, v)
		}
		return b
	}
	tmpl, args := SQLText(h, cs, on, vs)
	return setting{tmpl, args, label, build}
}

// condSubject is a condition in the n-th of the clauses that take one.
func condSubject(c Cond, n int) Subject {
	name, build := c.Name, c.Build
	switch n {
	case 0:
		return Subject{"SELECT WHERE " + name, kSelect, "Where", "WHERE " + c.Tmpl, sel(func(b builder.Select, v []any_) builder.Select { return b.Where(build(v)) }), false}
	case 1:
		return Subject{"HAVING " + name, kSelect, "Having", "HAVING " + c.Tmpl, sel(func(b builder.Select, v []any_) builder.Select { return b.Having(build(v)) }), false}
	case 2:
		return Subject{"UPDATE WHERE " + name, kUpdate, "Where", "WHERE " + c.Tmpl, upd(func(b builder.Update, v []any_) builder.Update { return b.Where(build(v)) }), false}
	}
	return Subject{"DELETE WHERE " + name, kDelete, "Where", "WHERE " + c.Tmpl, del(func(b builder.Delete, v []any_) builder.Delete { return b.Where(build(v)) }), false}
}

// valueSubjects are the other clauses that take values.
func valueSubjects() []Subject {
	const sub = `(SELECT "i" FROM "j" WHERE ("k" = ?))`
	var out []Subject
	inserts := func(name, clause, frag string, f func(b builder.Insert, v []any_) builder.Insert) {
		out = append(out, Subject{"INSERT " + name, kInsert, clause, frag, ins(f), false})
	}
	updates := func(name, clause, frag string, f func(b builder.Update, v []any_) builder.Update) {
		out = append(out, Subject{"UPDATE " + name, kUpdate, clause, frag, upd(f), false})
	}
	selects := func(name, clause, frag string, f func(b builder.Select, v []any_) builder.Select) {
		out = append(out, Subject{"SELECT " + name, kSelect, clause, frag, sel(f), false})
	}
	selects("WITH", "With", "WITH w AS "+sub, func(b builder.Select, v []any_) builder.Select { return b.With(lk.With("w", subq(v[0]))) })
	selects("two WITH", "With", "WITH w AS "+sub+", x AS "+sub, func(b builder.Select, v []any_) builder.Select {
		return b.With(lk.With("w", subq(v[0])), lk.With("x", subq(v[1])))
	})
	selects("columns", "Columns", `"x", EXISTS `+sub+`, NOT EXISTS `+sub, func(b builder.Select, v []any_) builder.Select {
		return b.Columns("x", lk.Exists(subq(v[0])), lk.NotExists(subq(v[1])))
	})
	selects("WHERE twice", "Where", `WHERE ((("a" = ?) AND ("b" < ?)) OR ("c" IN (?, ?)))`, func(b builder.Select, v []any_) builder.Select {
		return b.Where(eq("a", v[0])).Where(lk.Condition("b").LessThan(v[1])).Or(lk.Condition("c").In(v[2], v[3]))
	})
	inserts("VALUES", "Values", `VALUES (?, ?)`, func(b builder.Insert, v []any_) builder.Insert { return b.Values(v[0], v[1]) })
	inserts("VALUES slice", "Values", `VALUES (?, ?)`, func(b builder.Insert, v []any_) builder.Insert { return b.Values([]any_{v[0], v[1]}) })
	inserts("VALUES rows", "Values", `VALUES (?, ?), (?, ?)`, func(b builder.Insert, v []any_) builder.Insert {
		return b.Values([][]any_{{v[0], v[1]}, {v[2], v[3]}})
	})
	inserts("VALUES expression rows", "Values", `VALUES (?, ?), (?, 1)`, func(b builder.Insert, v []any_) builder.Insert {
		return b.Values([][]stmt.Expression{exprs(v[:2]), {stmt.NewExpression(v[2]), lk.Raw("1")}})
	})
	inserts("VALUES subquery", "Values", `VALUES (?, `+sub+`)`, func(b builder.Insert, v []any_) builder.Insert { return b.Values(v[0], subq(v[1])) })
	inserts("ON CONFLICT pairs", "OnConflict", `ON CONFLICT ("a", "b") DO UPDATE SET "p" = ?, "q" = ?`, func(b builder.Insert, v []any_) builder.Insert {
		return b.OnConflict("a", "b", lk.DoUpdate(lk.Pair("q", v[1]), lk.Pair("p", v[0])))
	})
	inserts("ON CONFLICT map", "OnConflict", `ON CONFLICT ("a") DO UPDATE SET "p" = ?, "q" = ?, "r" = `+sub, func(b builder.Insert, v []any_) builder.Insert {
		return b.OnConflict("a", lk.DoUpdate(lk.Map{"q": v[1], "p": v[0], "r": subq(v[2])}))
	})
	inserts("RETURNING", "Returning", `RETURNING EXISTS `+sub+`, "r"`, func(b builder.Insert, v []any_) builder.Insert {
		return b.Returning(lk.Exists(subq(v[0])), "r")
	})
	updates("WITH", "With", "WITH w AS "+sub+", x AS "+sub, func(b builder.Update, v []any_) builder.Update {
		return b.With(lk.With("w", subq(v[0]))).With(lk.With("x", subq(v[1])))
	})
	updates("SET pairs", "Set", `"t" SET "a" = ?, "b" = ?, "c" = `+sub, func(b builder.Update, v []any_) builder.Update {
		return b.Set(lk.Pair("c", subq(v[2])), lk.Pair("a", v[0])).Set(lk.Pair("b", v[1]))
	})
	updates("SET map", "Set", `"t" SET "a" = ?, "b" = f(?, ?)`, func(b builder.Update, v []any_) builder.Update {
		return b.Set(lk.Map{"b": stmt.NewCall("f", exprs(v[1:3])...), "a": v[0]})
	})
	updates("USING", "Set", `"t" SET ("a", "b") = (?, ?)`, func(b builder.Update, v []any_) builder.Update { return b.Set("a", "b").Using(v[0], v[1]) })
	updates("USING one", "Set", `"t" SET ("b") = (?)`, func(b builder.Update, v []any_) builder.Update { return b.Set("b").Using(v[0]) })
	updates("USING subquery", "Set", `"t" SET ("a", "b") = `+sub, func(b builder.Update, v []any_) builder.Update { return b.Set("a", "b").Using(subq(v[0])) })
	updates("WHERE twice", "Where", `WHERE ((("a" = ?) OR ("b" < ?)) AND ("c" IN (?, ?)))`, func(b builder.Update, v []any_) builder.Update {
		return b.Where(eq("a", v[0])).Or(lk.Condition("b").LessThan(v[1])).And(lk.Condition("c").In(v[2], v[3]))
	})
	updates("RETURNING", "Returning", `RETURNING "x", NOT EXISTS `+sub, func(b builder.Update, v []any_) builder.Update {
		return b.Returning("x", lk.NotExists(subq(v[0])))
	})
	out = append(out, Subject{"DELETE WHERE twice", kDelete, "Where", `WHERE ((("a" = ?) AND ("b" < ?)) AND ("c" IN (?, ?)))`, del(func(b builder.Delete, v []any_) builder.Delete {
		return b.Where(eq("a", v[0])).And(lk.Condition("b").LessThan(v[1])).Where(lk.Condition("c").In(v[2], v[3]))
	}), false})
	out = append(out, Subject{"DELETE RETURNING", kDelete, "Returning", `RETURNING "x", EXISTS ` + sub + `, EXISTS ` + sub, del(func(b builder.Delete, v []any_) builder.Delete {
		return b.Returning("x", lk.Exists(subq(v[0])), lk.Exists(subq(v[1])))
	}), false})
	return out
}

// anyValueSubject is any clause with values: a condition in any clause, or another one.
func anyValueSubject() Subject {
	vs, cs := valueSubjects(), conds()
	k := sym.Choose("subject", len(vs)+len(cs))
	if k < len(vs) {
		return vs[k]
	}
	s := condSubject(cs[k-len(vs)], sym.Choose("clause", 4))
	// every form of the other clauses for some of the conditions only
	s.Plain = (k-len(vs))%sym.Bound(7, 2) != 0
	return s
}

// checkInContext states that a clause renders as it should in any context.
func checkInContext(s Subject, v []any_, what string) {
	b, tmpl, args, label := inContext(s, v)
	checkTemplate(b, tmpl, args, what+": "+label)
}

// kindOf is the kind of a statement given by its template.
func kindOf(b builder.Builder) Kind {
	switch b.(type) {
	case builder.Select:
		return kSelect
	case builder.Insert:
		return kInsert
	case builder.Update:
		return kUpdate
	}
	return kDelete
}

var clauseWords = [4][][2]string{
	kSelect: {{"WITH ", "With"}, {"SELECT ", "Columns"}, {"DISTINCT ON ", "DistinctOn"}, {"DISTINCT ", "Distinct"}, {"FROM ", "From"}, {"INNER JOIN ", "Join"}, {"LEFT JOIN ", "Join"},
		{"RIGHT JOIN ", "Join"}, {"WHERE ", "Where"}, {"GROUP BY ", "GroupBy"}, {"HAVING ", "Having"}, {"ORDER BY ", "OrderBy"}, {"LIMIT ", "Limit"}, {"OFFSET ", "Offset"},
		{"FOR ", "Suffix"}, {"; --", "Comment"}},
	kInsert: {{"INSERT ", ""}, {"INTO ", "Into"}, {"(", "Columns"}, {"VALUES ", "Values"}, {"ON CONFLICT ", "OnConflict"}, {"RETURNING ", "Returning"}, {"; --", "Comment"}},
	kUpdate: {{"WITH ", "With"}, {"UPDATE ", "Set"}, {"ONLY ", "Only"}, {"FROM ", "From"}, {"WHERE ", "Where"}, {"RETURNING ", "Returning"}, {"; --", "Comment"}},
	kDelete: {{"DELETE ", ""}, {"FROM ", "From"}, {"USING ", "Using"}, {"WHERE ", "Where"}, {"RETURNING ", "Returning"}, {"; --", "Comment"}},
}

// pieces divides the template of a statement into those of its clauses.
func pieces(k Kind, h Head, cs []Clause, tmpl string) []string {
	out := make([]string, len(cs))
	at := func(name string) int {
		for i := range cs {
			if cs[i].Name == name {
				return i
			}
		}
		return -1
	}
	name, start := "", 0
	if k == kSelect {
		name = "Prefix"
	}
	cut := func(end int) {
		if name == "" || start == end {
			return
		}
		c := at(name)
		if out[c] != "" {
			out[c] += " "
		}
		for end > start && tmpl[end-1] == ' ' {
			end--
		}
		out[c] += tmpl[start:end]
	}
	depth, quote := 0, byte(0)
	for i := 0; i < len(tmpl); i++ {
		switch c := tmpl[i]; {
		case quote != 0:
			if c == quote {
				quote = 0
			}
			continue
		case depth == 0 && (i == 0 || tmpl[i-1] == ' '):
			for _, w := range clauseWords[k] {
				if len(tmpl)-i < len(w[0]) || tmpl[i:i+len(w[0])] != w[0] {
					continue
				}
				if w[0] == "(" && name != "Into" || w[0] == "ONLY " && tmpl[start:i] != "" || w[0] == "FOR " && name == "Columns" {
					break
				}
				cut(i)
				name, start = w[1], i
				if w[0] == "SELECT " || w[0] == "UPDATE " {
					start = i + len(w[0])
				}
				break
			}
		}
		switch c := tmpl[i]; c {
		case '"', '\'':
			quote = c
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 && name == "DistinctOn" {
				cut(i + 1)
				name, start = "Columns", i+2
			}
		case ' ':
			if name == "Distinct" || name == "Only" {
				cut(i)
				name, start = map[string]string{"Distinct": "Columns", "Only": "Set"}[name], i+1
			}
		}
	}
	cut(len(tmpl))
	all := ""
	for i := range cs {
		if i == h.At {
			all += " " + h.Text
		}
		if out[i] != "" {
			all += " " + out[i]
		}
	}
	if all != " "+tmpl {
		panic("harness: " + all + " for " + tmpl)
	}
	return out
}

// context is a set of clauses added to a statement.
type context struct {
	label string
	tmpl  string // of the statement with the clauses
	own   []bool // which of its marks are those of the statement
	other []any_ // the values of the others
	add   func(b builder.Builder) builder.Builder
}

// args are all values, given those of the statement.
func (c context) args(own []any_) []any_ {
	var out []any_
	i, j := 0, 0
	for _, o := range c.own {
		if o {
			out = append(out, own[i])
			i++
		} else {
			out = append(out, c.other[j])
			j++
		}
	}
	return out
}

// anyContext adds, to a statement of a kind given by its template, all clauses it lacks, or any one of them in any form.
func anyContext(k Kind, tmpl string) context {
	h, cs := clausesOf(k)
	ps := pieces(k, h, cs, tmpl)
	has := func(name string) bool {
		for i := range cs {
			if cs[i].Name == name && ps[i] != "" {
				return true
			}
		}
		return false
	}
	free := func(i int) bool {
		return ps[i] == "" && !(cs[i].Name == "Distinct" && has("DistinctOn")) && !(cs[i].Name == "DistinctOn" && has("Distinct")) && !(cs[i].Name == "Only" && !has("Set"))
	}
	on, vs := make([]bool, len(cs)), make([][]any_, len(cs))
	added := make([]bool, len(cs))
	for i := range cs {
		if ps[i] != "" {
			on[i], cs[i].Frag = true, ps[i]
		}
	}
	var c context
	apply := func(i int, b builder.Builder) builder.Builder { return cs[i].Apply(b, vs[i]) }
	if sym.Choose("context", 2) == 0 {
		c.label = " among all clauses"
		for i := range cs {
			if free(i) && cs[i].Name != "Distinct" {
				on[i], added[i], vs[i] = true, true, plainValues(cs[i])
			}
		}
	} else {
		i := sym.Choose("other", len(cs))
		sym.Assume(free(i))
		c.label = " with " + cs[i].Name
		fs := formsOf(k, cs[i].Name)
		f := fs[sym.Choose("form", len(fs))]
		w := []any_{901, "other"}
		frag, wargs, ok := aloneOf(k, i, func(b builder.Builder) builder.Builder { return f(b, w) })
		sym.Assert(ok, c.label+": renders alone")
		cs[i].Frag, on[i], added[i], vs[i] = frag, true, true, wargs
		apply = func(_ int, b builder.Builder) builder.Builder { return f(b, w) }
	}
	for i := range cs {
		if i == h.At {
			c.tmpl += " " + h.Text
		}
		if !on[i] {
			continue
		}
		c.tmpl += " " + cs[i].Frag
		for n := ref.Marks(cs[i].Frag); n > 0; n-- {
			c.own = append(c.own, !added[i])
		}
		c.other = append(c.other, vs[i]...)
	}
	c.add = func(b builder.Builder) builder.Builder {
		for i := range cs {
			if added[i] {
				b = apply(i, b)
			}
		}
		return b
	}
	return c
}

// checkAmong states that a statement, with its template, renders as it should among other clauses too.
func checkAmong(b builder.Builder, tmpl string, args []any_, label string) {
	c := anyContext(kindOf(b), tmpl)
	checkTemplate(c.add(b), c.tmpl, c.args(args), label+c.label)
}
