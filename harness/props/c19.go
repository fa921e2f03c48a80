package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
)

func withComment(b builder.Builder, c string) builder.Builder {
	switch x := b.(type) {
	case builder.Select:
		return x.Comment(c)
	case builder.Insert:
		return x.Comment(c)
	case builder.Update:
		return x.Comment(c)
	case builder.Delete:
		return x.Comment(c)
	}
	panic("no such kind")
}

// commented tells whether got is plain followed by the comment c on the same line.
func commented(got, plain, c string) bool {
	head := plain + "; -- "
	if len(got) != len(head)+len(c) || got[:len(head)] != head {
		return false
	}
	for i := 0; i < len(c); i++ {
		g := got[len(head)+i]
		if c[i] == '\n' || c[i] == '\r' {
			if g == '\n' || g == '\r' {
				return false
			}
		} else if g != c[i] {
			return false
		}
	}
	return true
}

// anyStatement is a builder with any near-complete or near-minimal set of clauses but a comment.
func anyStatement(changes int, values func(Clause) []any_) builder.Builder {
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	b := h.New()
	all := sym.Choose("from all", 2) == 1
	changed := 0
	for _, c := range cs {
		if c.Name == "Comment" {
			continue
		}
		on := all || need(k, c.Name)
		if changed < changes && sym.Choose(c.Name, 2) == 1 {
			changed++
			on = !on
		}
		if on {
			b = c.Apply(b, values(c))
		}
	}
	return b
}

// Any comment on any statement.
func C19_statements() {
	n := sym.Choose("length", sym.Bound(4, 6))
	b := anyStatement(sym.Bound(1, 2), clauseValues)
	c := sym.Str("comment", n)
	plain, got := take(b), take(withComment(b, c))
	sym.Assert(plain.ok == got.ok, "C19 a comment makes no difference to what is accepted")
	if !plain.ok {
		return
	}
	sym.Observe("query", got.text)
	if n == 0 {
		sym.Assert(got.text == plain.text && got.ntext == plain.ntext, "C19 an empty comment adds nothing")
	} else {
		sym.Assert(commented(got.text, plain.text, c), "C19 the comment follows the statement on its line (Query)")
		sym.Assert(commented(got.ntext, plain.ntext, c), "C19 the comment follows the statement on its line (NamedQuery)")
		ts := ref.Lex(got.text)
		sym.Assert(ts[len(ts)-1].Kind == 'c', "C19 the statement ends in the comment")
	}
	sym.Assert(SameArgs(got.args, plain.args) && len(got.nargs) == len(plain.nargs), "C19 the arguments stay the same")
}

// The same for String().
func C19_debug() {
	n := sym.Choose("length", sym.Bound(4, 6))
	b := anyStatement(1, plainValues)
	c := sym.Str("comment", n)
	var plain, got string
	ok, _ := Try(func() { plain = b.String() })
	ok2, _ := Try(func() { got = withComment(b, c).String() })
	sym.Assert(ok == ok2, "C19 a comment makes no difference to what is accepted by String()")
	if !ok {
		return
	}
	sym.Assert(n == 0 && got == plain || n > 0 && commented(got, plain, c), "C19 the comment follows the statement on its line (String)")
}

// Line breaks anywhere in a longer comment; a comment set again.
func C19_long() {
	text := `a '"$1 :arg_1 ? /* x */ ; DROP TABLE t -- b`
	k := sym.Choose("place", len(text)+1)
	c := text[:k] + sym.Str("comment", 2) + text[k:]
	b := withComment(lk.Delete("t").Where(eq("a", 1)), c)
	sym.Assert(commented(b.String(), `DELETE FROM "t" WHERE ("a" = 1)`, c), "C19 a long comment stays on its line")
	d := sym.Str("again", 1)
	sym.Assert(commented(withComment(b, d).String(), `DELETE FROM "t" WHERE ("a" = 1)`, d), "C19 the last comment counts")
	sym.Assert(withComment(b, "").String() == `DELETE FROM "t" WHERE ("a" = 1)`, "C19 the last comment counts, though empty")
}

// Comments of any length.
func C19_lengths() {
	n := []int{16, 63, 127, 255, 510, 1023, 4096}[sym.Choose("length", sym.Bound(6, 7))]
	k := []int{0, n / 2, n}[sym.Choose("place", 3)]
	fill := repeat("c", n)
	c := fill[:k] + sym.Str("comment", 2) + fill[k:]
	b := filterable(sym.Choose("statement", 3))
	plain, got := take(b), take(withComment(b, c))
	sym.Assert(commented(got.text, plain.text, c) && commented(got.ntext, plain.ntext, c), "C19 a comment of any length is there, on its line")
	sym.Assert(commented(withComment(b, c).String(), b.String(), c), "C19 a comment of any length is there, on its line (String)")
}

// A comment on a subquery at any place: nothing of the outer statement is lost; the outer statement may have its own.
func C19_embedded() {
	ss := subSites()
	site := ss[sym.Choose("site", len(ss))]
	s, tmpl, args := subShape(sym.Choose("shape", 2))
	c := sym.Str("inner", sym.Choose("length", 3)+1)
	v := outerValues()
	full, all := site.place(tmpl, args, v)
	b := site.Build(s.Comment(c), v)
	if sym.Choose("outer comment", 2) == 1 {
		o := sym.Str("outer", 1)
		q, a := withComment(b, o).Query()
		sym.Assert(commented(q, q[:len(q)-6], o) && ref.SameSQL(q[:len(q)-6], ref.Fill(full, dollar)), "C19 only the outer comment is at the end")
		sym.Assert(SameArgs(a, all), "C19 the arguments stay the same")
		return
	}
	checkTemplate(b, full, all, "C19 a commented subquery")
}

// Comments at two levels of nesting.
func C19_nested() {
	ss := condSites()
	s, tmpl, args := subShape(0)
	v, w := outerValues(), outerValues()
	inner := ss[sym.Choose("inner", len(ss))]
	mid, midArgs := inner.place(tmpl, args, v)
	m := inner.Build(s.Comment(sym.Str("c", 1)), v).(builder.Select).Comment(sym.Str("d", 1))
	os := stmtSites()
	outer := os[sym.Choose("outer", len(os))]
	full, all := outer.place(mid, midArgs, w)
	checkTemplate(outer.Build(m, w), full, all, "C19 commented subqueries")
}

// However the commented subquery is given: a builder, a pointer, its statement, an expression.
func C19_forms() {
	sub, tmpl, args := subShape(sym.Choose("shape", 2))
	s := sub.Comment(sym.Str("inner", 1+sym.Choose("length", 3)))
	v := outerValues()
	ss := formSites()
	site := ss[sym.Choose("site", len(ss))]
	full, all := subSite{Tmpl: site.tmpl}.place(tmpl, args, v)
	checkTemplate(site.build(subForm(s, sym.Choose("form", nSubForms)), v), full, all, "C19 a commented subquery given in another form")
}
