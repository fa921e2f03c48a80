package props

import (
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// decimal reads s as a number in canonical decimal form that fits a signed 64-bit integer.
func decimal(s string) (n int64, ok bool) {
	if len(s) == 0 || len(s) > 19 || s[0] == '0' && len(s) > 1 {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	return n, true
}

// clauseNumber is the text after a head, when the text starts with it.
func clauseNumber(text, head string) (string, bool) {
	if len(text) < len(head) || text[:len(head)] != head {
		return "", false
	}
	return text[len(head):], true
}

type clause15 struct {
	name  string
	apply func(v any_) builder.Select
	zero  bool // zero is allowed and means no clause
}

func clauses15() []clause15 {
	return []clause15{
		{"LIMIT", func(v any_) builder.Select { return lk.Select("x").From("t").Limit(v) }, false},
		{"OFFSET", func(v any_) builder.Select { return lk.Select("x").From("t").Offset(v) }, true},
	}
}

// checkNumber states C15 for a value whose number is n, when in is true (otherwise it must be refused).
func checkNumber(c clause15, v any_, n int64, in bool, what string) {
	var s snap
	var debug string
	ok, crash := Try(func() {
		b := c.apply(v)
		s = take(b)
		debug = b.String()
	})
	if !in || n < 0 || n == 0 && !c.zero {
		sym.Assert(!ok && !crash, "C15 refused: "+c.name+" of "+what)
		return
	}
	sym.Assert(ok && s.ok, "C15 accepted: "+c.name+" of "+what)
	sym.Observe("query", s.text)
	sym.Assert(s.text == s.ntext && s.text == debug && len(s.args) == 0 && len(s.nargs) == 0, "C15 the number is part of the text: "+c.name+" of "+what)
	if n == 0 {
		sym.Assert(s.text == `SELECT "x" FROM "t"`, "C15 zero is no clause: "+c.name+" of "+what)
		return
	}
	num, ok := clauseNumber(s.text, `SELECT "x" FROM "t" `+c.name+" ")
	sym.Assert(ok, "C15 the clause is there: "+c.name+" of "+what)
	got, ok := decimal(num)
	sym.Assert(ok, "C15 decimal digits: "+c.name+" of "+what)
	sym.Assert(got == n, "C15 exactly the number: "+c.name+" of "+what)
}

// Integers of every type, at full width.
func C15_integers() {
	c := clauses15()[sym.Choose("clause", 2)]
	switch sym.Choose("type", 11) {
	case 0:
		v := sym.Int("n")
		checkNumber(c, v, int64(v), true, "int")
	case 1:
		v := sym.Int8("n")
		checkNumber(c, v, int64(v), true, "int8")
	case 2:
		v := sym.Int16("n")
		checkNumber(c, v, int64(v), true, "int16")
	case 3:
		v := sym.Int32("n")
		checkNumber(c, v, int64(v), true, "int32")
	case 4:
		v := sym.Int64("n")
		checkNumber(c, v, v, true, "int64")
	case 5:
		v := sym.Uint("n")
		checkNumber(c, v, int64(v), v <= 1<<63-1, "uint")
	case 6:
		v := sym.Uint8("n")
		checkNumber(c, v, int64(v), true, "uint8")
	case 7:
		v := sym.Uint16("n")
		checkNumber(c, v, int64(v), true, "uint16")
	case 8:
		v := sym.Uint32("n")
		checkNumber(c, v, int64(v), true, "uint32")
	case 9:
		v := sym.Uint64("n")
		checkNumber(c, v, int64(v), v <= 1<<63-1, "uint64")
	case 10:
		v := sym.Int64("n")
		if c.zero {
			checkNumber(c, lk.Offset(v), v, true, "offset object")
		} else {
			checkNumber(c, lk.Limit(v), v, true, "limit object")
		}
	}
}

// integer is the number a string denotes: an optional sign and decimal digits. plain tells that there is no sign.
func integer(s string) (n int64, ok, plain bool) {
	neg, i := false, 0
	plain = true
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg, plain = s[0] == '-', false
		i = 1
	}
	if i == len(s) {
		return 0, false, plain
	}
	var u uint64
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, plain
		}
		u = u*10 + uint64(s[i]-'0')
	}
	if neg {
		return -int64(u), true, plain
	}
	return int64(u), true, plain
}

// Strings of any bytes.
func C15_strings() {
	c := clauses15()[sym.Choose("clause", 2)]
	v := sym.Str("s", sym.Choose("length", sym.Bound(6, 9)))
	n, ok, plain := integer(v)
	if ok && !plain && n >= 0 {
		// a sign is not needed: it may be refused, but must not change the number
		if accepted, _ := Try(func() { c.apply(v) }); !accepted {
			return
		}
	}
	checkNumber(c, v, n, ok, "string")
}

// Strings of digits around the largest number.
func C15_long_strings() {
	c := clauses15()[sym.Choose("clause", 2)]
	const max = "9223372036854775807"
	switch sym.Choose("form", 4) {
	case 0:
		// the last digits vary
		k := sym.Bound(4, 6)
		v := max[:len(max)-k]
		for i := 0; i < k; i++ {
			d := sym.Byte("digit")
			sym.Assume(d >= '0' && d <= '9')
			v += string([]byte{d})
		}
		n, _, _ := integer(v)
		checkNumber(c, v, n, v <= max, "long string")
	case 1:
		// one digit varies
		at := sym.Choose("at", len(max))
		d := sym.Byte("digit")
		sym.Assume(d >= '0' && d <= '9')
		v := max[:at] + string([]byte{d}) + max[at+1:]
		n, _, _ := integer(v)
		checkNumber(c, v, n, v <= max, "long string")
	case 2:
		// leading zeros
		v := "000000000000000000000000" + "12" + string([]byte{'0' + sym.Byte("digit")%10})
		n, _, _ := integer(v[20:])
		checkNumber(c, v, n, true, "string with leading zeros")
	case 3:
		// too long
		d := sym.Byte("digit")
		sym.Assume(d >= '1' && d <= '9')
		checkNumber(c, string([]byte{d})+"0000000000000000000"[sym.Choose("shorter", 1):], 0, false, "string of twenty digits")
		checkNumber(c, "18446744073709551616", 0, false, "2^64")
		checkNumber(c, "18446744073709551617", 0, false, "2^64+1")
	}
}

type namedInteger int

// Everything else is refused.
func C15_other_types() {
	n := 5
	vs := []any_{nil, 1.0, float32(2), true, []byte("5"), &n, namedInteger(3), []int{1}, lk.Raw("5"), lk.Value(5), encInt{5}, encStr{"5"},
		struct{}{}, 5 + 0i, 'x' - 0.5, map[string]int{}, lk.Select("n").From("m"), uintptr(4), stmt.Limit{Count: -1}, stmt.Offset{Start: -1}}
	k := sym.Choose("value", len(vs)+2)
	c := clauses15()[sym.Choose("clause", 2)]
	var v any_
	switch {
	case k < len(vs):
		v = vs[k]
	case c.zero:
		v = lk.Limit(3) // a limit is no offset
	default:
		v = lk.Offset(3)
	}
	ok, crash := Try(func() { c.apply(v).Query() })
	sym.Assert(!ok && !crash, "C15 refused: "+c.name+" of a value of another type")
}

// Both clauses, in a statement with everything after and before them.
func C15_both() {
	l, o := sym.Uint16("limit"), sym.Uint16("offset")
	sym.Assume(l > 0 && o > 0)
	b := lk.Select("x").From("t").Where(eq("a", 1)).OrderBy(lk.Order("y"))
	if sym.Choose("order", 2) == 0 {
		b = b.Limit(l).Offset(o)
	} else {
		b = b.Offset(o).Limit(l)
	}
	text, args := b.Suffix("FOR UPDATE").Query()
	num, ok := clauseNumber(text, `SELECT "x" FROM "t" WHERE ("a" = $1) ORDER BY y ASC LIMIT `)
	sym.Assert(ok && len(args) == 1, "C15 limit in place")
	at := -1
	for i := 0; i < len(num); i++ {
		if num[i] == ' ' {
			at = i
			break
		}
	}
	sym.Assert(at > 0, "C15 something after the limit")
	n, ok := decimal(num[:at])
	sym.Assert(ok && n == int64(l), "C15 exactly the limit")
	num, ok = clauseNumber(num[at:], " OFFSET ")
	const tail = " FOR UPDATE"
	sym.Assert(ok && len(num) > len(tail) && num[len(num)-len(tail):] == tail, "C15 offset in place")
	n, ok = decimal(num[:len(num)-len(tail)])
	sym.Assert(ok && n == int64(o), "C15 exactly the offset")
}

// limits tells whether text is head, then LIMIT l unless l is zero, then OFFSET o unless o is zero.
func limits(text, head string, l, o int64) bool {
	for _, c := range []struct {
		word string
		n    int64
	}{{" LIMIT ", l}, {" OFFSET ", o}} {
		if c.n == 0 {
			continue
		}
		rest, ok := clauseNumber(text, head+c.word)
		if !ok {
			return false
		}
		i := 0
		for i < len(rest) && rest[i] != ' ' {
			i++
		}
		n, ok := decimal(rest[:i])
		if !ok || n != c.n {
			return false
		}
		head, text = "", rest[i:]
	}
	return text == head
}

// Both clauses in one statement, in either order, with any numbers, alone or among other clauses.
func C15_together() {
	l, o := sym.Int64("limit"), sym.Int64("offset")
	if sym.Choose("small", 2) == 1 {
		sym.Assume(l > 0 && l < 100 && o >= 0 && o < 100)
	} else {
		sym.Assume(l > 0 && o >= 0)
	}
	var b builder.Select
	head := `SELECT "x" FROM "t"`
	switch sym.Choose("others", 4) {
	case 0:
		b = lk.Select("x").From("t")
	case 1:
		b, head = lk.Select("x").From("t").Distinct().OrderBy(lk.Order("o")), `SELECT DISTINCT "x" FROM "t" ORDER BY o ASC`
	case 2:
		b, head = lk.Select("x").From("t").DistinctOn("d").GroupBy("x").Where(lk.Condition("a").IsNull(true)), `SELECT DISTINCT ON ("d") "x" FROM "t" WHERE ("a" IS NULL) GROUP BY "x"`
	case 3:
		b, head = lk.Select("x").From("t").With(lk.With("c", lk.Select("y").From("u").Limit(7))).Prefix("P"), `P WITH c AS (SELECT "y" FROM "u" LIMIT 7) SELECT "x" FROM "t"`
	}
	switch sym.Choose("order", 3) {
	case 0:
		b = b.Limit(l).Offset(o)
	case 1:
		b = b.Offset(o).Limit(l)
	case 2:
		b = b.Offset(uint64(o)).Comment("").Limit(lk.Limit(l))
	}
	q, _ := b.Query()
	sym.Observe("query", q)
	sym.Assert(limits(q, head, l, o), "C15 both numbers exactly")
	n, _ := b.NamedQuery()
	sym.Assert(n == q && b.String() == q, "C15 both numbers in every rendering")
	e, _ := lk.Select("z").From(lk.Table("s")).Where(lk.Exists(b)).Query()
	sym.Assert(e == `SELECT "z" FROM "s" WHERE (EXISTS (`+q+`))`, "C15 both numbers in a subquery")
}
