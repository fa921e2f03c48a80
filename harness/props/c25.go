package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
)

func checkKind(b builder.Builder, k Kind, label string) {
	is := []bool{builder.IsSelectBuilder(b), builder.IsInsertBuilder(b), builder.IsUpdateBuilder(b), builder.IsDeleteBuilder(b)}
	for i := range is {
		sym.Assert(is[i] == (Kind(i) == k), "C25 exactly the predicate of its kind: "+label)
	}
}

func pointer(b builder.Builder) builder.Builder {
	switch x := b.(type) {
	case builder.Select:
		return &x
	case builder.Insert:
		return &x
	case builder.Update:
		return &x
	case builder.Delete:
		return &x
	}
	panic("no such kind")
}

func checkKinds(b builder.Builder, k Kind) {
	checkKind(b, k, "by value")
	p := pointer(b)
	checkKind(p, k, "by pointer")
	// asked again, and after rendering
	take(b)
	take(p)
	checkKind(b, k, "by value, rendered")
	checkKind(p, k, "by pointer, rendered")
}

// Any set of clauses of any kind.
func C25_clauses() {
	k := Kind(sym.Choose("kind", 4))
	h, cs := clausesOf(k)
	b := h.New()
	checkKinds(b, k)
	for _, c := range cs {
		if sym.Choose(c.Name, 2) == 1 {
			b = c.Apply(b, clauseValues(c))
			checkKind(b, k, "after "+c.Name)
		}
	}
	checkKinds(b, k)
}

// Any value at any place.
func C25_places() {
	p := AnyPlace()
	v := make([]any_, ref.Marks(p.Tmpl))
	for i := range v {
		v[i] = sym.Int64("v")
	}
	b := p.Build(v)
	k := map[byte]Kind{'S': kSelect, 'W': kSelect, 'I': kInsert, 'U': kUpdate, 'D': kDelete}[p.Tmpl[0]]
	if p.Tmpl[0] == 'W' {
		if _, ok := b.(builder.Update); ok {
			k = kUpdate
		}
	}
	checkKinds(b, k)
}

// Every method of every kind, called once or twice.
func C25_methods() {
	k := Kind(sym.Choose("kind", 4))
	b := startOf(k, sym.Choose("start", 2))
	ms, _ := methodsOf(k)
	for i := 0; i < sym.Bound(2, 3); i++ {
		next := call(ms[sym.Choose("method", len(ms))], b, ref.Itoa(i), sym.Int64("v"))
		if next == nil {
			return
		}
		b = next
		checkKind(b, k, "after a method")
	}
	checkKinds(b, k)
}

// The constructors of the library, and builders that cannot be rendered.
func C25_constructors() {
	checkKinds(lk.Select("a"), kSelect)
	checkKinds(builder.NewSelect(), kSelect)
	checkKinds(lk.Insert("t"), kInsert)
	checkKinds(builder.NewInsert(), kInsert)
	checkKinds(lk.Update("t"), kUpdate)
	checkKinds(builder.NewUpdate("t"), kUpdate)
	checkKinds(lk.Delete("t"), kDelete)
	checkKinds(builder.NewDelete(), kDelete)
	checkKind((*builder.Select)(nil), kSelect, "nil pointer")
	checkKind((*builder.Insert)(nil), kInsert, "nil pointer")
	checkKind((*builder.Update)(nil), kUpdate, "nil pointer")
	checkKind((*builder.Delete)(nil), kDelete, "nil pointer")
}
