package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// formsOf lists the ways to write a clause: each is one builder call (or several that belong together) on some
// form of arguments. Values are at most two.
func formsOf(k Kind, clause string) []func(b builder.Builder, v []any_) builder.Builder {
	type fn = func(b builder.Builder, v []any_) builder.Builder
	sub := func(v []any_) builder.Select { return subq(v[0]) }
	withs := [][]func(v []any_) stmt.WithQuery{
		{func(v []any_) stmt.WithQuery { return lk.With("c1", sub(v)) }},
		{func(v []any_) stmt.WithQuery { return lk.With("c1", stmt.NewCall("f", lk.Value(v[0]))) }},
		{func(v []any_) stmt.WithQuery { return lk.With("c1", sub(v)) }, func(v []any_) stmt.WithQuery { return lk.With("c2", sub(v[1:])) }},
	}
	conds := []func(v []any_) stmt.Expression{
		func(v []any_) stmt.Expression { return lk.Condition("p").In(v[0], v[1]) },
		func(v []any_) stmt.Expression { return lk.Condition("p").NotBetween(v[0], v[1]) },
		func(v []any_) stmt.Expression { return lk.Exists(sub(v)) },
		func(v []any_) stmt.Expression { return lk.NotExists(sub(v)) },
		func(v []any_) stmt.Expression { return lk.Condition("p") },
		func(v []any_) stmt.Expression { return lk.Condition("p").IsNull(true) },
		func(v []any_) stmt.Expression { return lk.Or(eq("p", v[0]), eq("q", v[1])) },
		func(v []any_) stmt.Expression { return lk.And(eq("p", v[0]), lk.Exists(sub(v[1:]))) },
		func(v []any_) stmt.Expression { return lk.Condition("p").In(sub(v)) },
		func(v []any_) stmt.Expression { return lk.Condition("p").Equal(sub(v)) },
		func(v []any_) stmt.Expression { return lk.Condition("p").Like("x%") },
		func(v []any_) stmt.Expression { return stmt.NewCall("f", lk.Value(v[0])).Equal(v[1]) },
		func(v []any_) stmt.Expression { return lk.Raw("true") },
		func(v []any_) stmt.Expression { return lk.Condition("p").In() },
	}
	lists := [][]any_{
		{"a"}, {"a", "b"}, {"b", "a"}, {"a", "a"}, {[]string{"a", "b", "c"}}, {lk.Column("t.a").As("z")}, {[]stmt.Column{lk.Column("a"), lk.Column("b")}}, {"t.a, b"}, {lk.Column("b"), "a"},
	}
	results := append([][]any_{
		{lk.Count("a").As("n")}, {lk.Max("a"), "b"}, {lk.Raw("1")}, {[]stmt.SelectExpression{lk.Column("z"), lk.Sum("y")}},
	}, lists...)
	tables := [][]any_{{"t1"}, {"t1", "t2"}, {lk.Table("t1").As("z")}, {"t2", lk.Table("t1")}, {lk.Raw("x")}}
	var out []fn
	add := func(f fn) { out = append(out, f) }
	switch clause {
	case "With":
		for i := range withs {
			w := withs[i]
			make_ := func(v []any_) []stmt.WithQuery {
				var qs []stmt.WithQuery
				for j := range w {
					qs = append(qs, w[j](v))
				}
				return qs
			}
			if k == kSelect {
				add(sel(func(b builder.Select, v []any_) builder.Select { return b.With(make_(v)...) }))
			} else {
				add(upd(func(b builder.Update, v []any_) builder.Update { return b.With(make_(v)...) }))
			}
		}
	case "Where":
		for i := range conds {
			c := conds[i]
			add(func(b builder.Builder, v []any_) builder.Builder { return where(b, 0, c(v)) })
		}
		// several calls that make one clause
		for i := 0; i < 3; i++ {
			f := []int{0, 1, 2}[i]
			add(func(b builder.Builder, v []any_) builder.Builder {
				b = where(b, 0, eq("p", v[0]))
				e := eq("q", v[1])
				switch t := b.(type) {
				case builder.Select:
					return []builder.Select{t.And(e), t.Or(e), t.Where(e)}[f]
				case builder.Update:
					return []builder.Update{t.And(e), t.Or(e), t.Where(e)}[f]
				case builder.Delete:
					return []builder.Delete{t.And(e), t.Or(e), t.Where(e)}[f]
				}
				return nil
			})
		}
	case "Having":
		for i := range conds {
			c := conds[i]
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Having(c(v)) }))
		}
	case "Columns":
		if k == kSelect {
			for i := range results {
				r := results[i]
				add(sel(func(b builder.Select, v []any_) builder.Select { return b.Columns(r...) }))
			}
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Columns() }))
			add(sel(func(b builder.Select, v []any_) builder.Select {
				return b.Columns(lk.Exists(sub(v)), lk.NotExists(sub(v[1:])))
			}))
		} else {
			for i := range lists {
				r := lists[i]
				add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Columns(r...) }))
			}
		}
	case "Returning":
		for i := range results {
			r := results[i]
			add(func(b builder.Builder, v []any_) builder.Builder { return returning(b, r...) })
		}
		add(func(b builder.Builder, v []any_) builder.Builder {
			return returning(b, lk.Exists(sub(v)), "x", lk.NotExists(sub(v[1:])))
		})
	case "DistinctOn":
		for i := range lists {
			r := lists[i]
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.DistinctOn(r...) }))
		}
	case "GroupBy":
		for i := range lists {
			r := lists[i]
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.GroupBy(r...) }))
		}
	case "Distinct":
		add(sel(func(b builder.Select, v []any_) builder.Select { return b.Distinct() }))
		add(sel(func(b builder.Select, v []any_) builder.Select { return b.Distinct().Distinct() }))
	case "From":
		for i := range tables {
			r := tables[i]
			switch k {
			case kSelect:
				add(sel(func(b builder.Select, v []any_) builder.Select { return b.From(r...) }))
			case kUpdate:
				if len(r) == 1 {
					add(upd(func(b builder.Update, v []any_) builder.Update { return b.From(r[0]) }))
				}
			case kDelete:
				add(del(func(b builder.Delete, v []any_) builder.Delete { return b.From(r...) }))
			}
		}
		if k == kDelete {
			add(del(func(b builder.Delete, v []any_) builder.Delete {
				return b.From(lk.Table("t1").As("z"), lk.Table("t2").As("y"))
			}))
		}
	case "Using":
		for i := range tables[:4] {
			r := tables[i]
			add(del(func(b builder.Delete, v []any_) builder.Delete { return b.Using(r...) }))
		}
	case "Join":
		on := func() stmt.OnClause { return lk.On("t.a", "j.b") }
		joins := [][]any_{
			{"j", "ON t.a = j.b"}, {"j", on(), lk.LeftJoin}, {lk.Table("j").As("z"), on().And(lk.On("t.c", "z.d")), lk.RightJoin},
			{"LEFT JOIN j ON t.a = j.b"}, {"j", lk.OrOn(on(), on())}, {stmt.NewRightJoin(lk.Table("j"), on())}, {"j", "ON (t.a = j.b AND t.c = j.d)", lk.InnerJoin},
			{stmt.NewLeftJoin(lk.Table("j").As("y"), on())},
		}
		for i := range joins {
			j := joins[i]
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Join(j...) }))
		}
		add(sel(func(b builder.Select, v []any_) builder.Select { return b.Join(joins[0]...).Join(joins[2]...) }))
	case "OrderBy":
		orders := [][]stmt.Order{{lk.Order("o")}, {lk.Order("o", lk.Desc)}, {lk.Column("o").Desc(), lk.Column("o").Asc()}, {lk.Order("o"), lk.Order("o")}}
		for i := range orders {
			o := orders[i]
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.OrderBy(o...) }))
		}
		add(sel(func(b builder.Select, v []any_) builder.Select {
			return b.OrderBy(lk.Order("o")).OrderBy(lk.Order("p"))
		}))
	case "Limit":
		for _, x := range []any_{1, int64(5), "7", int8(3), uint64(1 << 40)} {
			x := x
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Limit(x) }))
		}
	case "Offset":
		for _, x := range []any_{1, int64(5), "7", uint16(3), int64(1 << 40)} {
			x := x
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Offset(x) }))
		}
	case "Prefix":
		for _, x := range []any_{"EXPLAIN", "EXPLAIN ANALYZE"} {
			x := x
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Prefix(x) }))
		}
	case "Suffix":
		for _, x := range []any_{"FOR UPDATE", "FOR UPDATE SKIP LOCKED"} {
			x := x
			add(sel(func(b builder.Select, v []any_) builder.Select { return b.Suffix(x) }))
		}
	case "Comment":
		for _, x := range []string{"note", "a b; c", "x"} {
			x := x
			add(func(b builder.Builder, v []any_) builder.Builder { return noted(b, x) })
		}
		add(func(b builder.Builder, v []any_) builder.Builder { return noted(noted(b, "first"), "second") })
	case "Into":
		for _, x := range []any_{"t", lk.Table("t"), "s.t", lk.Table("t").As("z")} {
			x := x
			add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Into(x) }))
		}
	case "Values":
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values(v[0], v[1]) }))
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values(v) }))
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values([][]any_{{v[0], 1}, {2, v[1]}}) }))
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values(lk.Raw("now()"), nil) }))
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values([]string{"a", "b"}) }))
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values(v[0]) }))
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.Values(sub(v), v[1]) }))
	case "OnConflict":
		targets := [][]any_{{"a"}, {"a", "b"}, {lk.Column("b"), "a"}}
		acts := []func(v []any_) any_{
			func(v []any_) any_ { return lk.DoNothing() },
			func(v []any_) any_ { return lk.DoUpdate(lk.Pair("p", v[0]), lk.Pair("q", v[1])) },
			func(v []any_) any_ { return lk.DoUpdate(lk.Map{"q": v[1], "p": v[0]}) },
			func(v []any_) any_ { return lk.DoUpdate(lk.Pair("p", sub(v))) },
			func(v []any_) any_ { return lk.DoUpdate(lk.Pair("p", lk.Raw("EXCLUDED.p"))) },
		}
		for i := range targets {
			for j := range acts {
				if i != 0 && j != 1 {
					continue
				}
				t, a := targets[i], acts[j]
				add(ins(func(b builder.Insert, v []any_) builder.Insert {
					return b.OnConflict(append(append([]any_(nil), t...), a(v))...)
				}))
			}
		}
		add(ins(func(b builder.Insert, v []any_) builder.Insert { return b.OnConflict(lk.DoNothing()) }))
	case "Only":
		add(upd(func(b builder.Update, v []any_) builder.Update { return b.Only() }))
	case "Set":
		sets := []func(b builder.Update, v []any_) builder.Update{
			func(b builder.Update, v []any_) builder.Update { return b.Set(lk.Pair("b", v[0]), lk.Pair("a", v[1])) },
			func(b builder.Update, v []any_) builder.Update { return b.Set(lk.Map{"b": v[0], "a": v[1]}) },
			func(b builder.Update, v []any_) builder.Update {
				return b.Set(lk.Pair("a", v[0])).Set(lk.Pair("a", v[1]))
			},
			func(b builder.Update, v []any_) builder.Update { return b.Set("a", "b").Using(v[0], v[1]) },
			func(b builder.Update, v []any_) builder.Update { return b.Set("b", "a").Using(sub(v)) },
			func(b builder.Update, v []any_) builder.Update { return b.Set("a").Using(v[0]) },
			func(b builder.Update, v []any_) builder.Update { return b.Set(lk.Pair("a", sub(v))) },
			func(b builder.Update, v []any_) builder.Update {
				return b.Set(lk.Pair("a", lk.Raw("a + 1")), lk.Map{"c": nil})
			},
			func(b builder.Update, v []any_) builder.Update {
				return b.Set(lk.Pair("z", nil), lk.Map{"c": v[0]}).Set(lk.Pair("d", v[1]))
			},
		}
		for i := range sets {
			s := sets[i]
			add(upd(s))
		}
	}
	return out
}

func returning(b builder.Builder, args ...any_) builder.Builder {
	switch t := b.(type) {
	case builder.Insert:
		return t.Returning(args...)
	case builder.Update:
		return t.Returning(args...)
	}
	return b.(builder.Delete).Returning(args...)
}

func noted(b builder.Builder, c string) builder.Builder {
	switch t := b.(type) {
	case builder.Select:
		return t.Comment(c)
	case builder.Insert:
		return t.Comment(c)
	case builder.Update:
		return t.Comment(c)
	}
	return b.(builder.Delete).Comment(c)
}

// unmark writes '?' for each placeholder $n of a text: they must count from 1.
func unmark(s string) (string, bool) {
	out, n, ok := "", 0, true
	for i := 0; i < len(s); i++ {
		if s[i] != '$' {
			out += s[i : i+1]
			continue
		}
		n++
		d := ref.Itoa(n)
		if len(s)-i-1 < len(d) || s[i+1:i+1+len(d)] != d {
			ok = false
		}
		out += "?"
		for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
			i++
		}
	}
	return out, ok
}

// aloneOf is the text a clause adds to a statement that has nothing but what it requires, with '?' for its values,
// and these values.
func aloneOf(k Kind, c int, apply func(b builder.Builder) builder.Builder) (frag string, args []any_, ok bool) {
	h, cs := clausesOf(k)
	b := h.New()
	pre, post, req := "", "", -1
	for i := range cs {
		if need(k, cs[i].Name) {
			req = i
		}
	}
	if c < h.At {
		post = " " + h.Text
	} else {
		pre = h.Text + " "
	}
	var skip int
	if c != req {
		v := plainValues(cs[req])
		b = cs[req].Apply(b, v)
		switch f := ref.Fill(cs[req].Frag, func(int) string { return "?" }); {
		case c < h.At:
			post += " " + f
		case c < req:
			post = " " + f
		default:
			pre += f + " "
			skip = len(v)
		}
	}
	if cs[c].Name == "Comment" {
		pre = pre[:len(pre)-1]
	}
	var s string
	ok, _ = Try(func() { s, args = apply(b).Query() })
	if !ok {
		return
	}
	s, ok = unmark(s)
	if ok = ok && len(s) > len(pre)+len(post) && s[:len(pre)] == pre && s[len(s)-len(post):] == post; !ok {
		return
	}
	n := ref.Marks(s[len(pre) : len(s)-len(post)])
	return s[len(pre) : len(s)-len(post)], args[skip : skip+n], true
}

// someForms is a builder with any two clauses, each in any of its forms, on top of what the statement requires.
func someForms(v []any_) (b builder.Builder, name string) {
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	first, second := sym.Choose("first", len(cs)), sym.Choose("second", len(cs))
	sym.Assume(first < second)
	b = h.New()
	on := make([]bool, len(cs))
	for _, c := range []int{first, second} {
		on[c] = true
		fs := formsOf(k, cs[c].Name)
		b = fs[sym.Choose("form", len(fs))](b, v)
	}
	for i := range cs {
		if !on[i] && need(k, cs[i].Name) {
			b = cs[i].Apply(b, plainValues(cs[i]))
		}
	}
	return b, cs[first].Name + " and " + cs[second].Name
}
