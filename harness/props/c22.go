package props

import (
	"database/sql/driver"
	"errors"
	"math"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// bindAt gives v at one position of a place, arbitrary numbers at the others, and returns the builder, the position
// and what must be bound when v is bound as bound.
func bindAt(p Place, pos int, v, bound any_) (given, want []any_) {
	n := ref.Marks(p.Tmpl)
	given, want = make([]any_, n), make([]any_, n)
	for i := range given {
		given[i] = sym.Int64("other")
		want[i] = given[i]
	}
	given[pos], want[pos] = v, bound
	return
}

func checkBound(p Place, v, bound any_) {
	pos := sym.Choose("position", ref.Marks(p.Tmpl))
	given, want := bindAt(p, pos, v, bound)
	checkTemplate(p.Build(given), p.Tmpl, want, "C22 bound unchanged")
}

// A value of every kind at every position of every place.
func C22_places() {
	p := AnyPlace()
	v, bound := OpaqueValue("value", sym.Choose("kind", nKinds))
	checkBound(p, v, bound)
}

// The same for the conditions of the other statement kinds.
func C22_statements() {
	cs := conds()
	p := PlaceFor(cs[sym.Choose("cond", len(cs))], 1+sym.Choose("statement", 3))
	v, bound := OpaqueValue("value", sym.Choose("kind", nKinds))
	checkBound(p, v, bound)
}

// Two values of any kinds next to each other.
func C22_pairs() {
	v, vb := OpaqueValue("first", sym.Choose("kind 1", nKinds))
	w, wb := OpaqueValue("second", sym.Choose("kind 2", nKinds))
	ps := []Place{PlaceFor(conds()[17], 0), places()[7], places()[16]}
	p := ps[sym.Choose("place", len(ps))]
	given, want := bindAt(p, 0, v, vb)
	given[1], want[1] = w, wb
	checkTemplate(p.Build(given), p.Tmpl, want, "C22 two values")
}

// Longer contents.
func C22_contents() {
	n := sym.Choose("length", sym.Bound(12, 40))
	s := sym.Str("s", n)
	var v, bound any_
	switch sym.Choose("type", 8) {
	case 0:
		v, bound = s, s
	case 1:
		v, bound = []byte(s), []byte(s)
	case 2:
		v, bound = encStr{s}, s
	case 3:
		v, bound = valuer{s}, valuer{s}
	case 4:
		a, b := make([]string, n), make([]string, n)
		for i := range a {
			a[i] = s[i:]
			b[i] = s[i:]
		}
		v, bound = a, b
	case 5:
		a, b := make([]int64, n), make([]int64, n)
		for i := range a {
			a[i] = sym.Int64("n")
			b[i] = a[i]
		}
		v, bound = a, b
	case 6:
		a, b := map[string]string{}, map[string]string{}
		for i := 0; i < n; i++ {
			a["k"+ref.Itoa(i)] = s[i:]
			b["k"+ref.Itoa(i)] = s[i:]
		}
		v, bound = a, b
	case 7:
		a, b := map[string]interface{}{}, map[string]interface{}{}
		for i := 0; i < n; i++ {
			a["k"+ref.Itoa(i)] = []any_{s[i:], i, nil}[i%3]
			b["k"+ref.Itoa(i)] = []any_{s[i:], i, nil}[i%3]
		}
		v, bound = a, b
	}
	checkBound(PlaceFor(conds()[sym.Choose("place", 2)], 0), v, bound)
	checkBound(places()[7], v, bound)
}

// ---- encoders in all combinations

type (
	encSI struct {
		encStmt
		encInt
	}
	encIB struct {
		encInt
		encBool
	}
	encIT struct {
		encInt
		encTime
	}
	encIS struct {
		encInt
		encStr
	}
	encBT struct {
		encBool
		encTime
	}
	encBS struct {
		encBool
		encStr
	}
	encTS struct {
		encTime
		encStr
	}
	encSB struct {
		encStmt
		encBool
	}
	encST struct {
		encStmt
		encTime
	}
	encSS struct {
		encStmt
		encStr
	}
	encIBS struct {
		encInt
		encBool
		encStr
	}
	encBTS struct {
		encBool
		encTime
		encStr
	}
	encITS struct {
		encInt
		encTime
		encStr
	}
	encAll struct {
		encStmt
		encInt
		encBool
		encTime
		encStr
	}
	encVS struct {
		valuer
		encStr
	}
	encVI struct {
		valuer
		encInt
	}
	encVA struct {
		valuer
		encAll
	}
)

type encExpr struct{ e stmt.Statement }

func (e encExpr) Statement() stmt.Statement { return e.e }

// ptrEnc is an encoder by pointer.
type ptrEnc struct{ s string }

func (e *ptrEnc) String() string { return e.s }

type encFloat float64

func (e encFloat) Int64() int64 { return int64(math.Trunc(float64(e))) }

type encByte byte

func (e encByte) Bool() bool { return e != 0 }

type encSlice []string

func (e encSlice) String() string { return e[0] }

type encFunc func() string

func (f encFunc) String() string { return f() }

// What an encoder contributes: its statement, else its integer, its boolean, its time, its string; a valuer is bound as it is.
func C22_encoders() {
	s, n, b := sym.Str("s", 2), sym.Int64("n"), sym.Bool("b")
	m := sym.Int64("m")
	at := anyTime("t")
	S, N, B, T, M := encStr{s}, encInt{n}, encBool{b}, encTime{at}, encStmt{m}
	by := sym.Byte("byte")
	all := [][2]any_{
		{encSI{M, N}, m}, {encIB{N, B}, n}, {encIT{N, T}, n}, {encIS{N, S}, n}, {encBT{B, T}, b}, {encBS{B, S}, b}, {encTS{T, S}, at},
		{encSB{M, B}, m}, {encST{M, T}, m}, {encSS{M, S}, m}, {encIBS{N, B, S}, n}, {encBTS{B, T, S}, b}, {encITS{N, T, S}, n}, {encAll{M, N, B, T, S}, m},
		{encVS{valuer{s}, S}, encVS{valuer{s}, S}}, {encVI{valuer{s}, N}, encVI{valuer{s}, N}}, {encVA{valuer{s}, encAll{M, N, B, T, S}}, encVA{valuer{s}, encAll{M, N, B, T, S}}},
		{&S, s}, {&N, n}, {&B, b}, {&T, at}, {&M, m}, {&ptrEnc{s}, s}, {encFloat(-2.75), int64(-2)}, {encByte(by), by != 0}, {encSlice{s, "x"}, s},
		{encFunc(func() string { return s }), s}, {time.Duration(1500) * time.Millisecond, "1.5s"}, {time.March, "March"},
		{encExpr{stmt.NewValue(s)}, s}, {encExpr{lk.Value(n)}, n},
		{sliceValuer{s}, sliceValuer{s}}, {sliceValuer(nil), sliceValuer(nil)}, {anyValuer{nil}, anyValuer{nil}},
		{pgtype.Int8{Int64: n, Valid: b}, pgtype.Int8{Int64: n, Valid: b}},
		{pgtype.FlatArray[string]{s, "", s}, pgtype.FlatArray[string]{s, "", s}}, {pgtype.FlatArray[int64](nil), pgtype.FlatArray[int64](nil)},
		{pgtype.Range[int64]{Lower: n, Upper: m, LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: b},
			pgtype.Range[int64]{Lower: n, Upper: m, LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: b}},
		{[]string(nil), []string(nil)}, {[]int64(nil), []int64(nil)}, {[]byte(nil), []byte(nil)}, {map[string]string(nil), map[string]string(nil)},
		{map[string]interface{}(nil), map[string]interface{}(nil)}, {[]string{}, []string{}}, {[]byte{}, []byte{}}, {"", ""}, {someTime.In(time.FixedZone("z", 3600)), someTime.In(time.FixedZone("z", 3600))},
		{time.Time{}, time.Time{}}, {&time.Time{}, time.Time{}},
	}
	v := all[sym.Choose("value", len(all))]
	ps := []Place{PlaceFor(conds()[0], 0), PlaceFor(conds()[17], 0), PlaceFor(conds()[20], 0), PlaceFor(conds()[25], 0), PlaceFor(conds()[31], 0), places()[7], places()[10], places()[16], places()[21]}
	checkBound(ps[sym.Choose("place", len(ps))], v[0], v[1])
}

// A nil time pointer is NULL at every place.
func C22_nilTime() {
	p := AnyPlace()
	n := ref.Marks(p.Tmpl)
	pos := sym.Choose("position", n)
	given, nils, want := make([]any_, n), make([]bool, n), make([]any_, n)
	for i := range given {
		given[i] = sym.Int64("other")
		want[i] = given[i]
	}
	given[pos], nils[pos] = (*time.Time)(nil), true
	s := take(p.Build(given))
	sym.Observe("query", s.text)
	sym.Assert(s.ok && ref.SameSQL(s.text, ref.Fill(p.Tmpl, markFill(nils, "$"))) && ref.SameSQL(s.ntext, ref.Fill(p.Tmpl, markFill(nils, ":arg_"))), "C22 a nil time pointer is NULL")
	rest := append(append([]any_{}, want[:pos]...), want[pos+1:]...)
	sym.Assert(SameArgs(s.args, rest) && len(s.nargs) == len(rest), "C22 NULL takes no argument")
}

type (
	plainStr  string
	plainInt  int
	plainBool bool
	encNone   struct{}
	almost    struct{}
)

// almost has methods with the names of the encoders', but other results.
func (almost) Int64() int          { return 1 }
func (almost) Bool() string        { return "x" }
func (almost) Time() int64         { return 2 }
func (almost) String() []byte      { return nil }
func (almost) Statement() string   { return "DROP" }
func (almost) Value() driver.Value { return "v" }

func unsupported() []any_ {
	i, s, b, f := sym.Int("i"), sym.Str("s", 1), sym.Bool("b"), 1.5
	now := someTime
	tp := &now
	return []any_{
		unsupportedT{i}, &unsupportedT{i}, (*unsupportedT)(nil), encNone{}, almost{}, &i, &s, &b, &f, (*int)(nil), (*string)(nil), &tp,
		plainStr(s), plainInt(i), plainBool(b), complex(1, 2), complex64(complex(1, 2)), uintptr(3), (chan int)(nil), func() int { return 1 }, func() {},
		[]int{i}, []uint{1}, []bool{b}, []float64{f}, []interface{}{i}, []interface{}{}, []stmt.Expression{stmt.NewExpression(1)}, [][]byte{{1}}, []plainStr{plainStr(s)},
		[2]int{1, 2}, [0]string{}, [1]string{s}, map[string]int{s: i}, map[int]string{i: s}, map[string]bool{}, struct{}{}, struct{ S string }{s}, errors.New(s),
		[]time.Time{someTime}, []*string{&s}, [][]string{{s}}, []error{nil}, []driver.Valuer{valuer{s}}, &[]string{s},
		encExpr{nil}, encExpr{lk.Insert("t").Columns("a").Values(1).Statement()}, lk.Insert("t").Columns("a").Values(1), lk.Delete("t"), lk.Update("t").Set(lk.Pair("a", 1)),
		encExpr{stmt.NewColumn("a")}, stmt.NewTable("t"), lk.Column("a"),
	}
}

// A value of an unsupported type is refused at every place.
func C22_unsupported() {
	p := AnyPlace()
	n := ref.Marks(p.Tmpl)
	pos := sym.Choose("position", n)
	vs := unsupported()
	v := vs[sym.Choose("value", len(vs))]
	given, _ := bindAt(p, pos, v, nil)
	ok, crash := Try(func() { take(p.Build(given)) })
	sym.Assert(!ok, "C22 a value of an unsupported type is refused")
	sym.Assert(!crash, "C22 a value of an unsupported type is refused in an orderly way")
}

// Explicit values are bound as they are.
func C22_value() {
	v, _ := OpaqueValue("value", sym.Choose("kind", nKinds))
	b := []builder.Builder{
		lk.Delete("t").Where(lk.Condition("a").Equal(lk.Value(v))), lk.Delete("t").Where(lk.Value(v).NotEqual(lk.Condition("a"))),
	}
	tmpl := []string{`DELETE FROM "t" WHERE ("a" = ?)`, `DELETE FROM "t" WHERE (? != "a")`}
	k := sym.Choose("place", 2)
	checkTemplate(b[k], tmpl[k], []any_{v}, "C22 an explicit value")
}
