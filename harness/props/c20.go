package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/stmt"
)

// listForm is a method that takes a list: the text before it, and the condition.
type listForm struct {
	Tmpl  string
	Build func(vs ...any_) stmt.In
}

func listForms() []listForm {
	a := lk.Condition("a")
	return []listForm{
		{`"a" IN`, a.In}, {`"a" NOT IN`, a.NotIn}, {`f() IN`, stmt.NewCall("f").In}, {`x.y NOT IN`, lk.Condition(lk.Raw("x.y")).NotIn},
	}
}

// checkList states that in renders head followed by the list of entries, where each '?' stands for one of args.
func checkList(form listForm, in stmt.In, entries []string, args []any_, label string) {
	list := ""
	for i, e := range entries {
		if i > 0 {
			list += ", "
		}
		list += e
	}
	tmpl := form.Tmpl + ` (` + list + `)`
	before, after := sym.Int64("before"), sym.Int64("after")
	all := append(append([]any_{before}, args...), after)
	b := lk.Select("x").From("t").Where(eq("p", before)).And(in).Or(eq("q", after))
	checkTemplate(b, `SELECT "x" FROM "t" WHERE ((("p" = ?) AND (`+tmpl+`)) OR ("q" = ?))`, all, label)
}

func marks(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = "?"
	}
	return out
}

// One slice of any supported type and length.
func C20_slices() {
	k := sym.Choose("type", nSlices)
	n := sym.Choose("length", sym.Bound(5, 9))
	forms := listForms()
	form := forms[sym.Choose("form", len(forms))]
	given, elems := MakeSlice(sliceNames[k], k, n)
	checkList(form, form.Build(given), marks(n), elems, "C20 slice")
}

// Long slices of every type.
func C20_long_slices() {
	k := sym.Choose("type", nSlices)
	n := longSizes[sym.Choose("size", sym.Bound(4, 8))]
	form := listForms()[sym.Choose("form", 2)]
	given, elems := MakeSlice(sliceNames[k], k, n)
	checkList(form, form.Build(given), marks(n), elems, "C20 long slice")
}

// A long slice of numbers.
func C20_long() {
	n := sym.Choose("length", sym.Bound(40, 130))
	form := listForms()[sym.Choose("form", 2)]
	ints := make([]int, n)
	elems := make([]any_, n)
	for i := range ints {
		ints[i] = sym.Int("element")
		elems[i] = ints[i]
	}
	given := []any_{ints}
	if sym.Choose("variadic", 2) == 1 {
		if n == 1 || n == 0 {
			return
		}
		given = elems
	}
	checkList(form, form.Build(given...), marks(n), elems, "C20 long list")
}

// A variadic list (two or more) or a slice of anything (one or more) with one element of any kind among others.
func C20_kinds() {
	k := sym.Choose("kind", nKinds)
	n := sym.Choose("length", sym.Bound(3, 5)) + 1
	at := sym.Choose("at", n)
	elems := make([]any_, n)
	bound := make([]any_, n)
	for i := range elems {
		elems[i] = sym.Int64("element")
		bound[i] = elems[i]
	}
	elems[at], bound[at] = OpaqueValue("value", k)
	form := listForms()[sym.Choose("form", 2)]
	switch how := sym.Choose("how", 3); {
	case how == 0 && n > 1:
		checkList(form, form.Build(elems...), marks(n), bound, "C20 variadic list")
	case how == 1:
		checkList(form, form.Build(elems), marks(n), bound, "C20 slice of anything")
	case how == 2:
		checkList(form, form.Build(exprs(elems)), marks(n), bound, "C20 slice of expressions")
	case n == 1 && !isList(elems[0]):
		checkList(form, form.Build(elems[0]), marks(1), bound, "C20 one element")
	}
}

// isList tells whether v alone is the list, not an element of it.
func isList(v any_) bool {
	switch v.(type) {
	case []string, []int64:
		return true
	}
	return false
}

// Lists mixing values, NULL, raw fragments, identifiers, calls and subqueries.
func C20_mixed() {
	n := sym.Choose("length", sym.Bound(3, 4)) + 1
	var elems, args []any_
	var entries []string
	for i := 0; i < n; i++ {
		v := sym.Int64("v")
		switch sym.Choose("entry", 8) {
		case 0:
			elems, entries, args = append(elems, v), append(entries, "?"), append(args, v)
		case 1:
			elems, entries = append(elems, nil), append(entries, "NULL")
		case 2:
			elems, entries = append(elems, lk.Raw("now()")), append(entries, "now()")
		case 3:
			elems, entries = append(elems, stmt.NewIdentifier("b.c")), append(entries, `"b"."c"`)
		case 4:
			w := sym.Str("s", 1)
			elems, entries, args = append(elems, stmt.NewCall("g", stmt.NewExpression(v), stmt.NewExpression(w))), append(entries, "g(?, ?)"), append(args, v, w)
		case 5:
			elems, entries, args = append(elems, subq(v)), append(entries, `(SELECT "i" FROM "j" WHERE ("k" = ?))`), append(args, v)
		case 6:
			elems, entries, args = append(elems, subq(v).Statement()), append(entries, `(SELECT "i" FROM "j" WHERE ("k" = ?))`), append(args, v)
		case 7:
			elems, entries, args = append(elems, []int64{v}), append(entries, "?"), append(args, []int64{v})
		}
	}
	form := listForms()[sym.Choose("form", 2)]
	given := [][]any_{elems, {elems}, {stmt.NewArrayExpression(elems...)}}[sym.Choose("how", 3)]
	if n == 1 {
		switch e := elems[0].(type) {
		case nil:
			given = []any_{elems}
		case []int64:
			given = []any_{elems}
		case builder.Select, stmt.Select:
			_ = e
			entries[0] = entries[0][1 : len(entries[0])-1]
		}
	}
	checkList(form, form.Build(given...), entries, args, "C20 mixed list")
}

// A single subquery of any shape is the list itself, however it is given.
func C20_subquery() {
	s, tmpl, args := subShape(sym.Choose("shape", nSubShapes))
	forms := listForms()
	form := forms[sym.Choose("form", len(forms))]
	var given any_ = s
	switch sym.Choose("how", 6) {
	case 1:
		given = s.Statement()
	case 2:
		given = []any_{s}
	case 3:
		given = []stmt.Expression{s.Statement().(stmt.Expression)}
	case 4:
		given = stmt.NewExpression(s)
	case 5:
		given = &s
	}
	checkList(form, form.Build(given), []string{tmpl}, args, "C20 single subquery")
}

// The list in the debug rendering.
func C20_debug() {
	k := sym.Choose("type", nSlices)
	n := sym.Choose("length", sym.Bound(3, 4))
	form := listForms()[sym.Choose("form", 2)]
	if k == 0 || k == nSlices-1 {
		n = n % 2
	}
	var given any_
	var elems []any_
	if k >= 1 && k <= 9 || k == 14 {
		// numbers: their digits are the matter of C21
		all := []any_{[]int{5, -6, 7, 8}, []uint{5, 6, 7, 8}, []int8{5, -6, 7, 8}, []int16{5, -6, 7, 8}, []uint16{5, 6, 7, 8}, []int32{5, -6, 7, 8}, []uint32{5, 6, 7, 8},
			[]int64{5, -6, 7, 8}, []uint64{5, 6, 7, 8}}
		if k == 14 {
			given = []stmt.Expression{lk.Value("a"), lk.Raw("b"), lk.Value(1), lk.Value(nil)}
			checkDebugList(form, given, []string{"'a'", "b", "1", "NULL"})
			return
		}
		given = all[k-1]
		n = 4
		elems = []any_{5, -6, 7, 8}
		if k == 2 || k == 5 || k == 7 || k == 9 {
			elems[1] = 6
		}
	} else {
		given, elems = makeSlice(sliceNames[k], k, n, func(name string) string { return sym.Str(name, 1) })
	}
	entries := make([]string, n)
	for i := range entries {
		entries[i] = format.Value(elems[i])
	}
	checkDebugList(form, given, entries)
}

func checkDebugList(form listForm, given any_, entries []string) {
	list := ""
	for i, e := range entries {
		if i > 0 {
			list += ", "
		}
		list += e
	}
	got := lk.Delete("t").Where(form.Build(given)).String()
	sym.Observe("text", got)
	sym.Assert(ref.SameDebug(got, `DELETE FROM "t" WHERE (`+form.Tmpl+` (`+list+`))`), "C20 list in String()")
}
