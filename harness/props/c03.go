package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// replaceMarks replaces each $i of a text by fill(i-1).
func replaceMarks(s string, fill func(k int) string) string {
	out := ""
	last := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '$' {
			continue
		}
		j, n := i+1, 0
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			n = n*10 + int(s[j]-'0')
			j++
		}
		if j == i+1 {
			continue
		}
		out += s[last:i] + fill(n-1)
		last = j
		i = j - 1
	}
	return out + s[last:]
}

func checkRenderings(name string, b builder.Builder) {
	o := Render(b)
	sym.Assert(o.OK, "C03 renders: "+name)
	sym.Observe("query", o.Text)
	sym.Assert(o.NText == replaceMarks(o.Text, named), "C03 NamedQuery() is Query() with :arg_i for $i: "+name)
	n := len(o.Args)
	sym.Assert(len(o.NArgs) == n, "C03 as many named arguments as arguments: "+name)
	for i := 0; i < n; i++ {
		v, ok := o.NArgs[named(i)[1:]]
		sym.Assert(ok && SameArgs([]any_{v}, o.Args[i:i+1]), "C03 the named arguments hold the same values: "+name)
	}
	sym.Assert(o.Debug == replaceMarks(o.Text, func(k int) string {
		if k < 0 || k >= n {
			return "?"
		}
		return format.Value(o.Args[k])
	}), "C03 String() is Query() with the literal of argument i for $i: "+name)

	raw, std, nam := &types.RawContext{}, &types.StdContext{}, &types.NamedContext{}
	s := b.Statement()
	s.Write(raw)
	s.Write(std)
	s.Write(nam)
	sym.Assert(raw.Query() == o.Debug, "C03 Statement() written to a RawContext is String(): "+name)
	sym.Assert(std.Query() == o.Text && SameArgs(std.Values(), o.Args), "C03 Statement() written to a StdContext is Query(): "+name)
	nv := nam.Values()
	same := nam.Query() == o.NText && len(nv) == n
	for i := 0; i < n && same; i++ {
		v, ok := nv[named(i)[1:]]
		same = ok && SameArgs([]any_{v}, o.Args[i:i+1])
	}
	sym.Assert(same, "C03 Statement() written to a NamedContext is NamedQuery(): "+name)
}

// Every place, each position in turn holding a value of any kind; contents fixed.
func C03_places() {
	p := AnyPlace()
	n := ref.Marks(p.Tmpl)
	pos := sym.Choose("position", n)
	given := make([]any_, n)
	for i := range given {
		given[i] = 1000 + i
	}
	given[pos] = []any_{nil, "it's \\ $1 :arg_1", true, []byte{1, 0xab}, someTime, &someTime, valuer{"$2"}, (*ptrValuer)(nil), encStr{"x"},
		[]string{"a", "b"}, 1.5, lk.Raw("now()"), lk.Condition("col")}[sym.Choose("v", 13)]
	if _, err := given[pos].(stmt.Expression); err {
		sym.Assume(pos != 0 || len(p.Name) < 6 || p.Name[:6] != "Value.") // the receiver of Value methods is a value
	}
	checkRenderings(p.Name, p.Build(given))
}

// Values of every kind with arbitrary contents.
func C03_values() {
	p := []Place{places()[0], places()[16], places()[10], PlaceFor(conds()[20], 2)}[sym.Choose("place", 4)]
	n := ref.Marks(p.Tmpl)
	pos := sym.Choose("position", n)
	given := make([]any_, n)
	for i := range given {
		given[i] = 1000 + i
	}
	k := sym.Choose("kind", nKinds)
	if k == 0 {
		given[pos] = sym.Str("v", sym.Choose("length", sym.Bound(3, 4)))
	} else {
		given[pos], _ = MakeValue("v", k)
	}
	checkRenderings(p.Name, p.Build(given))
}

// Conditions in the other statement kinds, integer values.
func C03_statements() {
	cs := conds()
	c := cs[sym.Choose("cond", len(cs))]
	p := PlaceFor(c, 1+sym.Choose("statement", 3))
	given := make([]any_, ref.Marks(p.Tmpl))
	for i := range given {
		given[i] = []any_{nil, 7 + i, "it's", []byte{1}}[sym.Choose("v", 4)]
	}
	checkRenderings(p.Name, p.Build(given))
}

// Every set of clauses.
func C03_clauses() {
	k := Kind(sym.Choose("kind", 4))
	var b builder.Builder
	if sym.Bound(0, 1) == 0 {
		b, _, _ = NearSubset(k, 3, plainValues)
	} else {
		b, _, _ = AnySubset(k, plainValues)
	}
	if o := Render(b); !o.OK {
		return
	}
	checkRenderings("clauses", b)
}

// Fragments of any contents, at every site: the three forms hold the same fragment around the same values.
func C03_fragments() {
	ss := fragSites()
	s := ss[sym.Choose("site", len(ss))]
	f := sym.Str("fragment", []int{1, 2, 4, 7}[sym.Choose("length", sym.Bound(3, 4))])
	n := ref.Marks(s.Tmpl)
	v := make([]any_, n)
	for i := range v {
		v[i] = []any_{1000 + i, "it's", nil, true, 3 + i}[i%5]
		if v[i] == nil {
			v[i] = int64(-5)
		}
	}
	checkAround(s.Name, func(f string) builder.Builder { return s.Build(f, v) }, f)
}

// checkAround states that the three forms of build(f) are those of build("QZ") with f in its place, the latter being
// the same statement.
func checkAround(name string, build func(f string) builder.Builder, f string) {
	twin := build("QZ")
	checkRenderings(name, twin)
	w, g := Render(twin), Render(build(f))
	sym.Assert(g.OK, "C03 renders with a fragment: "+name)
	for _, p := range [3][2]string{{w.Text, g.Text}, {w.NText, g.NText}, {w.Debug, g.Debug}} {
		head, tail, ok := split(p[0])
		sym.Assert(ok && p[1] == head+f+tail, "C03 the three forms hold the same fragment: "+name)
	}
	sym.Assert(SameArgs(g.Args, w.Args) && len(g.NArgs) == len(w.NArgs), "C03 the same values around a fragment: "+name)
	raw, std, nam := &types.RawContext{}, &types.StdContext{}, &types.NamedContext{}
	b := build(f).Statement()
	b.Write(raw)
	b.Write(std)
	b.Write(nam)
	sym.Assert(raw.Query() == g.Debug && std.Query() == g.Text && nam.Query() == g.NText, "C03 Statement() written to a context is the same text, with a fragment: "+name)
}

// Names of any contents, at every site: no form changes them.
func C03_names() {
	ss := nameSites()
	s := ss[sym.Choose("site", len(ss))]
	n := sym.Str("name", 1+sym.Choose("length", sym.Bound(3, 5)))
	if s.Trim {
		trimmedName(n)
	}
	o := Render(s.Build(n))
	sym.Assert(o.OK && o.Text == o.NText && o.Text == o.Debug, "C03 the three forms hold the same names: "+s.Name)
}

// Comments of any contents.
func C03_comments() {
	c := "QZ" + sym.Str("comment", sym.Choose("length", sym.Bound(4, 6)))
	k := Kind(sym.Choose("kind", 4))
	b := startOf(k, 0)
	if k == kInsert {
		b = lk.Insert("t").Values(7)
	}
	checkRenderings("comment", withComment(b, "QZ"))
	w, g := Render(withComment(b, "QZ")), Render(withComment(b, c))
	tail := g.Text[len(w.Text)-2:]
	sym.Assert(len(g.Text) > len(w.Text)-2 && g.NText == w.NText[:len(w.NText)-2]+tail && g.Debug == w.Debug[:len(w.Debug)-2]+tail, "C03 the three forms hold the same comment")
}

// Any two clauses, each in any of its forms.
func C03_forms() {
	sym.MapOrder(1)
	b, name := someForms([]any_{-1234567, "it's \\ $1 :arg_2"})
	checkRenderings(name, b)
}
