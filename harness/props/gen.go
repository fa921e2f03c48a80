// Package props holds one group of harness functions per property: Cnn_name decides a part of property Cnn.
package props

import (
	"database/sql/driver"
	"reflect"
	"runtime"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

type any_ = interface{}

// Try runs f and tells whether it returned; crash is true if it failed with a run-time error.
func Try(f func()) (ok bool, crash bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			_, crash = r.(runtime.Error)
		}
	}()
	f()
	return true, false
}

// Out is everything a builder renders.
type Out struct {
	OK    bool
	Text  string
	Args  []any_
	NText string
	NArgs map[string]any_
	Debug string
}

// Render renders b in all three ways; OK is false if any of them panics.
func Render(b builder.Builder) Out {
	var o Out
	o.OK, _ = Try(func() {
		o.Text, o.Args = b.Query()
		o.NText, o.NArgs = b.NamedQuery()
		o.Debug = b.String()
	})
	return o
}

// SameArgs compares argument lists by dynamic type and contents.
func SameArgs(a, b []any_) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Same compares dynamic types and contents; a number that is not one is itself.
func Same(a, b any_) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && sym.SameFloat(x, y)
	case float32:
		y, ok := b.(float32)
		return ok && sym.SameFloat(float64(x), float64(y))
	}
	return reflect.DeepEqual(a, b)
}

// SameOut compares two renderings.
func SameOut(a, b Out) bool {
	if a.OK != b.OK {
		return false
	}
	if !a.OK {
		return true
	}
	if a.Text != b.Text || a.NText != b.NText || a.Debug != b.Debug || !SameArgs(a.Args, b.Args) || len(a.NArgs) != len(b.NArgs) {
		return false
	}
	for k, v := range a.NArgs {
		w, ok := b.NArgs[k]
		if !ok || !Same(v, w) {
			return false
		}
	}
	return true
}

// ---- values ------------------------------------------------------------------

type valuer struct{ s string }

func (v valuer) Value() (driver.Value, error) { return v.s, nil }

type ptrValuer struct{ n int64 }

func (v *ptrValuer) Value() (driver.Value, error) { return v.n, nil }

type encStr struct{ s string }

func (e encStr) String() string { return e.s }

type encInt struct{ n int64 }

func (e encInt) Int64() int64 { return e.n }

type encBool struct{ b bool }

func (e encBool) Bool() bool { return e.b }

type encTime struct{ t time.Time }

func (e encTime) Time() time.Time { return e.t }

type encStmt struct{ v any_ }

func (e encStmt) Statement() stmt.Statement { return stmt.NewValue(e.v) }

// namedStr and namedInt are encoders whose underlying type is a basic one.
type namedStr string

func (e namedStr) String() string { return string(e) }

type namedInt int64

func (e namedInt) Int64() int64 { return int64(e) }

type unsupportedT struct{ A int }

var someTime = time.Date(2021, time.March, 4, 5, 6, 7, 89000, time.UTC)

// Kinds of bindable values.
const nKinds = 44

var kindNames = [nKinds]string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
	"float32", "float64", "[]byte", "time", "*time", "valuer", "*valuer", "nil *valuer", "[]string", "[]int64", "map[string]string",
	"map[string]interface{}", "string encoder", "int64 encoder", "bool encoder", "time encoder", "statement encoder", "value expression",
	"FlatArray[string]", "FlatArray[int64]", "named string", "named int64",
	"empty []byte", "nil []byte", "empty []string", "nil []int64", "empty map", "nil map", "zero time", "long []byte", "clock time", "*clock time"}

// MakeValue builds a value of kind k with arbitrary contents: what is given to the API and what must be bound.
func MakeValue(name string, k int) (given, bound any_) {
	return makeValue(name, k, sym.Str, func(string) time.Time { return someTime })
}

// OpaqueValue is MakeValue with strings of any length up to 24 and arbitrary times.
func OpaqueValue(name string, k int) (given, bound any_) {
	return makeValue(name, k, func(name string, n int) string { return sym.Text(name, 0, 24) }, anyTime)
}

var someZone = time.FixedZone("X", 5*3600+1800)

// The first second of the years 1, the zero time, and 10000.
const year1, year9999 = -62135596800, 253402300799

// anyTime is an arbitrary instant of the years 1 to 9999, to the nanosecond, in a zone that is not UTC.
func anyTime(name string) time.Time {
	ns, at := sym.Int64(name), sym.Int64(name)
	sym.Assume(ns >= 0 && ns < 1e9 && at >= year1 && at <= year9999)
	return time.Unix(at, ns).In(someZone)
}

// clock is a time read from the clock, which has a reading of the monotonic clock as well: of an arbitrary instant when
// at(name) is one.
func clock(name string, at func(name string) time.Time) time.Time {
	sec, ns, mono := uint64(4332960000), uint64(123456000), uint64(77)
	if t := at(name); t != someTime {
		sec, ns, mono = sym.Uint64(name), sym.Uint64(name), sym.Uint64(name)
		sym.Assume(sec < 1<<33 && ns < 1e9 && mono < 1<<60)
	}
	return sym.Clock(1<<63|sec<<30|ns, int64(mono), someZone)
}

func makeValue(name string, k int, str func(name string, n int) string, at func(name string) time.Time) (given, bound any_) {
	switch k {
	case 0:
		v := str(name, 3)
		return v, v
	case 1:
		v := sym.Bool(name)
		return v, v
	case 2:
		v := sym.Int(name)
		return v, v
	case 3:
		v := sym.Int8(name)
		return v, v
	case 4:
		v := sym.Int16(name)
		return v, v
	case 5:
		v := sym.Int32(name)
		return v, v
	case 6:
		v := sym.Int64(name)
		return v, v
	case 7:
		v := sym.Uint(name)
		return v, v
	case 8:
		v := sym.Uint8(name)
		return v, v
	case 9:
		v := sym.Uint16(name)
		return v, v
	case 10:
		v := sym.Uint32(name)
		return v, v
	case 11:
		v := sym.Uint64(name)
		return v, v
	case 12:
		v := sym.Float32(name)
		return v, v
	case 13:
		v := sym.Float64(name)
		return v, v
	case 14:
		v := []byte{sym.Byte(name), sym.Byte(name)}
		return v, []byte{v[0], v[1]}
	case 15:
		t := at(name)
		return t, t
	case 16:
		t := at(name)
		u := t
		return &t, u
	case 17:
		v := valuer{str(name, 2)}
		return v, v
	case 18:
		v := &ptrValuer{sym.Int64(name)}
		return v, v
	case 19:
		v := (*ptrValuer)(nil)
		return v, v
	case 20:
		a, b := str(name, 1), str(name, 2)
		return []string{a, b}, []string{a, b}
	case 21:
		a, b := sym.Int64(name), sym.Int64(name)
		return []int64{a, b}, []int64{a, b}
	case 22:
		a, b := str(name, 1), str(name, 1)
		return map[string]string{"k": b, "l": a}, map[string]string{"k": b, "l": a}
	case 23:
		a := sym.Int64(name)
		return map[string]interface{}{"k": a}, map[string]interface{}{"k": a}
	case 24:
		s := str(name, 2)
		return encStr{s}, s
	case 25:
		n := sym.Int64(name)
		return encInt{n}, n
	case 26:
		b := sym.Bool(name)
		return encBool{b}, b
	case 27:
		t := at(name)
		return encTime{t}, t
	case 28:
		n := sym.Int64(name)
		return encStmt{n}, n
	case 29:
		n := str(name, 1)
		return lk.Value(n), n
	case 30:
		a := str(name, 1)
		return pgtype.FlatArray[string]{a}, pgtype.FlatArray[string]{a}
	case 31:
		a := sym.Int64(name)
		return pgtype.FlatArray[int64]{a}, pgtype.FlatArray[int64]{a}
	case 32:
		s := str(name, 2)
		return namedStr(s), s
	case 33:
		n := sym.Int64(name)
		return namedInt(n), n
	case 34:
		return []byte{}, []byte{}
	case 35:
		return []byte(nil), []byte(nil)
	case 36:
		return []string{}, []string{}
	case 37:
		return []int64(nil), []int64(nil)
	case 38:
		return map[string]string{}, map[string]string{}
	case 39:
		return map[string]interface{}(nil), map[string]interface{}(nil)
	case 40:
		return time.Time{}, time.Time{}
	case 41:
		v := make([]byte, 70)
		v[0], v[69] = sym.Byte(name), sym.Byte(name)
		return v, append([]byte{}, v...)
	case 42:
		v := clock(name, at)
		return v, v
	case 43:
		v := clock(name, at)
		return &v, v
	}
	panic("kind")
}

// ---- places that accept a value -------------------------------------------------

// Place is a way of giving values to the API. In Tmpl every '?' is the place of one value, in textual order.
type Place struct {
	Name  string
	Tmpl  string
	Build func(v []any_) builder.Builder
}

// Cond is a condition that takes values.
type Cond struct {
	Name  string
	Tmpl  string
	Build func(v []any_) stmt.Expression
}

func exprs(v []any_) []stmt.Expression {
	out := make([]stmt.Expression, len(v))
	for i := range v {
		out[i] = stmt.NewExpression(v[i])
	}
	return out
}

func conds() []Cond {
	a := func() stmt.Identifier { return lk.Condition("a") }
	one := func(name, op string, f func(v any_) stmt.Expression) Cond {
		return Cond{name, `("a" ` + op + ` ?)`, func(v []any_) stmt.Expression { return f(v[0]) }}
	}
	return []Cond{
		one("Equal", "=", func(v any_) stmt.Expression { return a().Equal(v) }),
		one("NotEqual", "!=", func(v any_) stmt.Expression { return a().NotEqual(v) }),
		one("Is", "IS", func(v any_) stmt.Expression { return a().Is(v) }),
		one("IsNot", "IS NOT", func(v any_) stmt.Expression { return a().IsNot(v) }),
		one("GreaterThan", ">", func(v any_) stmt.Expression { return a().GreaterThan(v) }),
		one("GreaterThanOrEqual", ">=", func(v any_) stmt.Expression { return a().GreaterThanOrEqual(v) }),
		one("LessThan", "<", func(v any_) stmt.Expression { return a().LessThan(v) }),
		one("LessThanOrEqual", "<=", func(v any_) stmt.Expression { return a().LessThanOrEqual(v) }),
		one("Like", "LIKE", func(v any_) stmt.Expression { return a().Like(v) }),
		one("NotLike", "NOT LIKE", func(v any_) stmt.Expression { return a().NotLike(v) }),
		one("ILike", "ILIKE", func(v any_) stmt.Expression { return a().ILike(v) }),
		one("NotILike", "NOT ILIKE", func(v any_) stmt.Expression { return a().NotILike(v) }),
		one("IsDistinctFrom", "IS DISTINCT FROM", func(v any_) stmt.Expression { return a().IsDistinctFrom(v) }),
		one("IsNotDistinctFrom", "IS NOT DISTINCT FROM", func(v any_) stmt.Expression { return a().IsNotDistinctFrom(v) }),
		one("Contains", "@>", func(v any_) stmt.Expression { return a().Contains(v) }),
		one("IsContainedBy", "<@", func(v any_) stmt.Expression { return a().IsContainedBy(v) }),
		one("Overlap", "&&", func(v any_) stmt.Expression { return a().Overlap(v) }),
		{"Between", `("a" BETWEEN ? AND ?)`, func(v []any_) stmt.Expression { return a().Between(v[0], v[1]) }},
		{"NotBetween", `("a" NOT BETWEEN ? AND ?)`, func(v []any_) stmt.Expression { return a().NotBetween(v[0], v[1]) }},
		{"In2", `("a" IN (?, ?))`, func(v []any_) stmt.Expression { return a().In(v[0], v[1]) }},
		{"In3", `("a" IN (?, ?, ?))`, func(v []any_) stmt.Expression { return a().In(v...) }},
		{"NotIn2", `("a" NOT IN (?, ?))`, func(v []any_) stmt.Expression { return a().NotIn(v[0], v[1]) }},
		{"InSlice", `("a" IN (?, ?))`, func(v []any_) stmt.Expression { return a().In([]any_{v[0], v[1]}) }},
		{"NotInExprs", `("a" NOT IN (?, ?))`, func(v []any_) stmt.Expression { return a().NotIn(exprs(v)) }},
		{"RawCond", `(lower(x) = ?)`, func(v []any_) stmt.Expression { return lk.Condition(lk.Raw("lower(x)")).Equal(v[0]) }},
		{"Value.Equal", `(? = ?)`, func(v []any_) stmt.Expression { return valueOf(v[0]).Equal(v[1]) }},
		{"Value.NotEqual", `(? != ?)`, func(v []any_) stmt.Expression { return valueOf(v[0]).NotEqual(v[1]) }},
		{"Value.Contains", `(? @> ?)`, func(v []any_) stmt.Expression { return valueOf(v[0]).Contains(v[1]) }},
		{"Value.IsContainedBy", `(? <@ ?)`, func(v []any_) stmt.Expression { return valueOf(v[0]).IsContainedBy(v[1]) }},
		{"Value.Overlap", `(? && ?)`, func(v []any_) stmt.Expression { return valueOf(v[0]).Overlap(v[1]) }},
		{"Call.Equal", `(f(?) = ?)`, func(v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).Equal(v[1]) }},
		{"Call.GreaterThan", `(f(?, ?) > ?)`, func(v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:2])...).GreaterThan(v[2]) }},
		{"Call.LessThan", `(f() < ?)`, func(v []any_) stmt.Expression { return stmt.NewCall("f").LessThan(v[0]) }},
		{"Call.Like", `(f("a", ?) LIKE ?)`, func(v []any_) stmt.Expression {
			return stmt.NewCall("f", a(), stmt.NewExpression(v[0])).Like(v[1])
		}},
		{"Call.ILike", `(f(?) ILIKE ?)`, func(v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).ILike(v[1]) }},
		{"Call.Overlap", `(f(?) && ?)`, func(v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).Overlap(v[1]) }},
		{"Call.In", `(f(?) IN (?, ?))`, func(v []any_) stmt.Expression { return stmt.NewCall("f", exprs(v[:1])...).In(v[1], v[2]) }},
		{"And", `(("a" = ?) AND ("a" < ?))`, func(v []any_) stmt.Expression { return a().Equal(v[0]).And(a().LessThan(v[1])) }},
		{"Or", `(("a" = ?) OR ("a" < ?))`, func(v []any_) stmt.Expression { return a().Equal(v[0]).Or(a().LessThan(v[1])) }},
		{"lk.And", `(("a" = ?) AND ("a" < ?))`, func(v []any_) stmt.Expression { return lk.And(a().Equal(v[0]), a().LessThan(v[1])) }},
		{"lk.Or", `(("a" = ?) OR ("a" < ?))`, func(v []any_) stmt.Expression { return lk.Or(a().Equal(v[0]), a().LessThan(v[1])) }},
		{"In.And", `(("a" IN (?, ?)) AND ("a" < ?))`, func(v []any_) stmt.Expression { return a().In(v[0], v[1]).And(a().LessThan(v[2])) }},
		{"In.Or", `(("a" IN (?, ?)) OR ("a" < ?))`, func(v []any_) stmt.Expression { return a().In(v[0], v[1]).Or(a().LessThan(v[2])) }},
		{"Exists", `(EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)))`, func(v []any_) stmt.Expression { return lk.Exists(subq(v[0])) }},
		{"NotExists", `(NOT EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)))`, func(v []any_) stmt.Expression { return lk.NotExists(subq(v[0])) }},
		{"Equal(subquery)", `("a" = (SELECT "i" FROM "j" WHERE ("k" = ?)))`, func(v []any_) stmt.Expression { return a().Equal(subq(v[0])) }},
		{"In(subquery)", `("a" IN (SELECT "i" FROM "j" WHERE ("k" = ?)))`, func(v []any_) stmt.Expression { return a().In(subq(v[0])) }},
		{"Between(subquery)", `("a" BETWEEN (SELECT "i" FROM "j" WHERE ("k" = ?)) AND ?)`, func(v []any_) stmt.Expression { return a().Between(subq(v[0]), v[1]) }},
	}
}

// valueOf makes a Value receiver out of whatever was given.
func valueOf(v any_) stmt.Value {
	if x, ok := stmt.NewExpression(v).(stmt.Value); ok {
		return x
	}
	panic("not a value")
}

func subq(v any_) builder.Select {
	return lk.Select("i").From("j").Where(lk.Condition("k").Equal(v))
}

func eq(col string, v any_) stmt.Expression { return lk.Condition(col).Equal(v) }

func places() []Place {
	return []Place{
		{"Select.Where", `SELECT "x" FROM "t" WHERE ("a" = ?)`, func(v []any_) builder.Builder { return lk.Select("x").From("t").Where(eq("a", v[0])) }},
		{"Select.Where.Where", `SELECT "x" FROM "t" WHERE (("a" = ?) AND ("b" = ?))`, func(v []any_) builder.Builder {
			return lk.Select("x").From("t").Where(eq("a", v[0])).Where(eq("b", v[1]))
		}},
		{"Select.And.Or", `SELECT "x" FROM "t" WHERE ((("a" = ?) AND ("b" = ?)) OR ("c" = ?))`, func(v []any_) builder.Builder {
			return lk.Select("x").From("t").Where(eq("a", v[0])).And(eq("b", v[1])).Or(eq("c", v[2]))
		}},
		{"Select.Having", `SELECT "x" FROM "t" WHERE ("b" = ?) GROUP BY "x" HAVING (count(*) > ?)`, func(v []any_) builder.Builder {
			return lk.Select("x").From("t").GroupBy("x").Having(lk.Condition(lk.Raw("count(*)")).GreaterThan(v[1])).Where(eq("b", v[0]))
		}},
		{"Select.With", `WITH c1 AS (SELECT "i" FROM "j" WHERE ("k" = ?)), c2 AS (SELECT "i" FROM "j" WHERE ("k" = ?)) SELECT "x" FROM "t" WHERE ("a" = ?)`,
			func(v []any_) builder.Builder {
				return lk.Select("x").From("t").Where(eq("a", v[2])).With(lk.With("c1", subq(v[0]))).With(lk.With("c2", subq(v[1])))
			}},
		{"Select.Expression", `SELECT EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?)), "y" FROM "t" WHERE ("a" = ?)`, func(v []any_) builder.Builder {
			return lk.Select(lk.Exists(subq(v[0])), "y").From("t").Where(eq("a", v[1]))
		}},
		{"Select.full", `WITH c AS (SELECT "i" FROM "j" WHERE ("k" = ?)) SELECT "x" FROM "t" INNER JOIN "u" ON "t"."id" = "u"."id" WHERE (("a" = ?) AND ("b" IN (?, ?))) GROUP BY "x" HAVING ("h" = ?) ORDER BY x ASC LIMIT 7 OFFSET 8 FOR UPDATE`,
			func(v []any_) builder.Builder {
				return lk.Select("x").From("t").Join("u", "ON t.id = u.id").Where(eq("a", v[1])).And(lk.Condition("b").In(v[2], v[3])).
					GroupBy("x").Having(eq("h", v[4])).OrderBy(lk.Order("x")).Limit(7).Offset(8).Suffix("FOR UPDATE").With(lk.With("c", subq(v[0])))
			}},
		{"Update.Set(Map)", `UPDATE "t" SET "a" = ?, "b" = ?`, func(v []any_) builder.Builder { return lk.Update("t").Set(lk.Map{"b": v[1], "a": v[0]}) }},
		{"Update.Set(map)", `UPDATE "t" SET "a" = ?, "b" = ?`, func(v []any_) builder.Builder {
			return lk.Update("t").Set(map[string]interface{}{"b": v[1], "a": v[0]})
		}},
		{"Update.Set(Pair)", `UPDATE "t" SET "a" = ?, "b" = ? WHERE ("c" = ?)`, func(v []any_) builder.Builder {
			return lk.Update("t").Where(eq("c", v[2])).Set(lk.Pair("b", v[1]), lk.Pair("a", v[0]))
		}},
		{"Update.Using", `UPDATE "t" SET ("a", "b") = (?, ?) FROM "u" WHERE (("c" = ?) OR ("d" = ?)) RETURNING "x"`, func(v []any_) builder.Builder {
			return lk.Update("t").Set("a", "b").Using(v[0], v[1]).From("u").Where(eq("c", v[2])).Or(eq("d", v[3])).Returning("x")
		}},
		{"Update.Using.Using", `UPDATE ONLY "t" SET ("a", "b") = (?, ?)`, func(v []any_) builder.Builder {
			return lk.Update("t").Only().Set("a").Set("b").Using(v[0]).Using(v[1])
		}},
		{"Update.With", `WITH c AS (SELECT "i" FROM "j" WHERE ("k" = ?)) UPDATE "t" SET "a" = ? WHERE (("b" = ?) AND ("c" = ?))`, func(v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", v[1])).Where(eq("b", v[2])).And(eq("c", v[3])).With(lk.With("c", subq(v[0])))
		}},
		{"Update.Set(subquery)", `UPDATE "t" SET "a" = (SELECT "i" FROM "j" WHERE ("k" = ?)), "b" = ?`, func(v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("b", v[1]), lk.Pair("a", subq(v[0])))
		}},
		{"Delete.Where", `DELETE FROM "t" USING "u" WHERE (("a" = ?) AND ("b" = ?)) RETURNING "x"`, func(v []any_) builder.Builder {
			return lk.Delete("t").Using("u").Where(eq("a", v[0])).And(eq("b", v[1])).Returning("x")
		}},
		{"Delete.Or", `DELETE FROM "t" WHERE (("a" = ?) OR ("b" = ?))`, func(v []any_) builder.Builder { return lk.Delete("t").Where(eq("a", v[0])).Or(eq("b", v[1])) }},
		{"Insert.Values", `INSERT INTO "t" ("a", "b", "c") VALUES (?, ?, ?)`, func(v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b", "c").Values(v[0], v[1], v[2])
		}},
		{"Insert.Values(slice)", `INSERT INTO "t" ("a", "b") VALUES (?, ?)`, func(v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b").Values([]interface{}{v[0], v[1]})
		}},
		{"Insert.Values(rows)", `INSERT INTO "t" ("a", "b") VALUES (?, ?), (?, ?) RETURNING "x"`, func(v []any_) builder.Builder {
			return lk.Insert("t").Columns("a", "b").Values([][]interface{}{{v[0], v[1]}, {v[2], v[3]}}).Returning("x")
		}},
		{"Insert.Values(expression rows)", `INSERT INTO "t" ("a") VALUES (?), (?)`, func(v []any_) builder.Builder {
			return lk.Insert("t").Columns("a").Values([][]stmt.Expression{exprs(v[:1]), exprs(v[1:2])})
		}},
		{"Insert.Set", `INSERT INTO "t" ("a", "b") VALUES (?, ?)`, func(v []any_) builder.Builder { return lk.Insert("t").Set(lk.Map{"a": v[0], "b": v[1]}) }},
		{"Insert.OnConflict", `INSERT INTO "t" ("a") VALUES (?) ON CONFLICT ("a") DO UPDATE SET "a" = ?, "b" = ? RETURNING "a"`, func(v []any_) builder.Builder {
			return lk.Insert("t").Set(lk.Pair("a", v[0])).OnConflict("a", lk.DoUpdate(lk.Pair("b", v[2]), lk.Pair("a", v[1]))).Returning("a")
		}},
		{"Insert.OnConflict(map)", `INSERT INTO "t" ("a", "b") VALUES (?, ?) ON CONFLICT ("a") DO UPDATE SET "a" = ?`, func(v []any_) builder.Builder {
			return lk.Insert("t").OnConflict("a", lk.DoUpdate(lk.Map{"a": v[2]})).Columns("a", "b").Values(v[0], v[1])
		}},
		{"Call in Set", `UPDATE "t" SET "a" = f(?, ?)`, func(v []any_) builder.Builder {
			return lk.Update("t").Set(lk.Pair("a", stmt.NewCall("f", exprs(v[:2])...)))
		}},
		{"nested", `SELECT "x" FROM "t" WHERE (("a" = ?) AND ("b" IN (SELECT "i" FROM "j" WHERE (("k" = ?) AND ("m" = (SELECT "n" FROM "o" WHERE ("p" = ?))))))) LIMIT 3`,
			func(v []any_) builder.Builder {
				return lk.Select("x").From("t").Where(eq("a", v[0])).
					And(lk.Condition("b").In(subq(v[1]).And(lk.Condition("m").Equal(lk.Select("n").From("o").Where(eq("p", v[2])))))).Limit(3)
			}},
	}
}

// PlaceFor wraps a condition in a statement of one of several kinds.
func PlaceFor(c Cond, kind int) Place {
	switch kind {
	case 0:
		return Place{c.Name, `SELECT "x" FROM "t" WHERE ` + c.Tmpl, func(v []any_) builder.Builder { return lk.Select("x").From("t").Where(c.Build(v)) }}
	case 1:
		return Place{c.Name, `DELETE FROM "t" WHERE ` + c.Tmpl, func(v []any_) builder.Builder { return lk.Delete("t").Where(c.Build(v)) }}
	case 2:
		n := ref.Marks(c.Tmpl)
		return Place{c.Name, `UPDATE "t" SET "z" = ? WHERE ` + c.Tmpl, func(v []any_) builder.Builder {
			return lk.Update("t").Where(c.Build(v[1 : n+1])).Set(lk.Pair("z", v[0]))
		}}
	}
	return Place{c.Name, `SELECT "x" FROM "t" GROUP BY "x" HAVING ` + c.Tmpl, func(v []any_) builder.Builder {
		return lk.Select("x").From("t").GroupBy("x").Having(c.Build(v))
	}}
}

// AnyPlace picks a place: a statement-level one, or a condition in a statement.
func AnyPlace() Place {
	ps, cs := places(), conds()
	k := sym.Choose("place", len(ps)+len(cs))
	if k < len(ps) {
		return ps[k]
	}
	return PlaceFor(cs[k-len(ps)], 0)
}

func dollar(k int) string { return "$" + ref.Itoa(k+1) }
func named(k int) string  { return ":arg_" + ref.Itoa(k+1) }

var _ = types.And

const nLongForms = 6

func repeat(s string, n int) string {
	out := ""
	for i := 0; i < n; i++ {
		out += s
	}
	return out
}

// longPlace is a place for n values.
func longPlace(form, n int) Place {
	list := "?" + repeat(", ?", n-1)
	switch form {
	case 0:
		return Place{"long In", `SELECT "x" FROM "t" WHERE ("a" IN (` + list + `))`, func(v []any_) builder.Builder {
			return lk.Select("x").From("t").Where(lk.Condition("a").In(v...))
		}}
	case 1:
		return Place{"long Values", `INSERT INTO "t" VALUES (` + list + `)`, func(v []any_) builder.Builder { return lk.Insert("t").Values(v...) }}
	case 2:
		return Place{"long rows", `INSERT INTO "t" VALUES (?)` + repeat(", (?)", n-1), func(v []any_) builder.Builder {
			rows := [][]any_{}
			for i := range v {
				rows = append(rows, v[i:i+1])
			}
			return lk.Insert("t").Values(rows)
		}}
	case 3:
		cond := `("a" = ?)`
		for i := 1; i < n; i++ {
			cond = "(" + cond + ` AND ("a" = ?))`
		}
		return Place{"long And", `DELETE FROM "t" WHERE ` + cond, func(v []any_) builder.Builder {
			b := lk.Delete("t").Where(lk.Condition("a").Equal(v[0]))
			for i := 1; i < n; i++ {
				b = b.And(lk.Condition("a").Equal(v[i]))
			}
			return b
		}}
	case 4:
		sym.MapOrder(1)
		tmpl := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				tmpl += ", "
			}
			tmpl += `"c` + pad(i) + `" = ?`
		}
		return Place{"long Set", `UPDATE "t" SET ` + tmpl, func(v []any_) builder.Builder {
			b := lk.Update("t")
			for i := range v {
				b = b.Set(lk.Pair("c"+pad(i), v[i]))
			}
			return b
		}}
	}
	return Place{"long Call", `SELECT "x" FROM "t" WHERE (f(` + list + `) = 1)`, func(v []any_) builder.Builder {
		return lk.Select("x").From("t").Where(stmt.NewCall("f", exprs(v)...).Equal(lk.Raw("1")))
	}}
}

// pad writes a number so that the order of texts is the order of numbers.
func pad(i int) string {
	s := ref.Itoa(i)
	return repeat("0", 3-len(s)) + s
}
