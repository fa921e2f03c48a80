package props

import (
	"database/sql/driver"
	"errors"
	"time"
	"unicode/utf8"

	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
)

func hexDigit(c byte) (int, bool) {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0'), true
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10, true
	}
	return 0, false
}

// literal reads one quoted literal at the start of s by PostgreSQL's rules for backslash escapes:
// its value and its length.
func literal(s string) (value string, n int, ok bool) {
	if len(s) == 0 || s[0] != '\'' {
		return "", 0, false
	}
	var b []byte
	i := 1
	for i < len(s) {
		c := s[i]
		if c == '\'' {
			if i+1 < len(s) && s[i+1] == '\'' {
				b = append(b, '\'')
				i += 2
				continue
			}
			return string(b), i + 1, true
		}
		if c != '\\' {
			b = append(b, c)
			i++
			continue
		}
		if i+1 >= len(s) {
			return "", 0, false
		}
		e := s[i+1]
		i += 2
		switch {
		case e == 'n':
			b = append(b, '\n')
		case e == 'r':
			b = append(b, '\r')
		case e == 't':
			b = append(b, '\t')
		case e == 'b':
			b = append(b, '\b')
		case e == 'f':
			b = append(b, '\f')
		case e >= '0' && e <= '7':
			n := int(e - '0')
			for k := 0; k < 2 && i < len(s) && s[i] >= '0' && s[i] <= '7'; k++ {
				n = n*8 + int(s[i]-'0')
				i++
			}
			b = append(b, byte(n))
		case e == 'x' || e == 'u' || e == 'U':
			n, k := 0, 0
			most := map[byte]int{'x': 2, 'u': 4, 'U': 8}[e]
			for k < most && i < len(s) {
				d, ok := hexDigit(s[i])
				if !ok {
					break
				}
				n = n*16 + d
				k++
				i++
			}
			if e == 'x' && k > 0 {
				b = append(b, byte(n))
			} else if e != 'x' && k == most {
				b = append(b, string(rune(n))...)
			} else {
				return "", 0, false
			}
		default:
			b = append(b, e)
		}
	}
	return "", 0, false
}

// printed is what String() writes for a value at some place of a statement, or what format.Value gives for it.
func printed(v any_) string { return written(v, true) }

// written is printed; format.Value takes bound values only, so no encoder or time pointer.
func written(v any_, direct bool) string {
	type place struct {
		head, tail string
		b          func() builder.Builder
	}
	ps := []place{
		{`DELETE FROM "t" WHERE ("a" = `, `)`, func() builder.Builder { return lk.Delete("t").Where(lk.Condition("a").Equal(v)) }},
		{`UPDATE "t" SET "a" = `, `, "b" = 1`, func() builder.Builder { return lk.Update("t").Set(lk.Pair("b", 1), lk.Pair("a", v)) }},
		{`INSERT INTO "t" ("a", "b") VALUES (1, `, `)`, func() builder.Builder { return lk.Insert("t").Columns("a", "b").Values(1, v) }},
		{`SELECT "x" FROM "t" WHERE ("a" IN (1, `, `, 2))`, func() builder.Builder { return lk.Select("x").From("t").Where(lk.Condition("a").In(1, v, 2)) }},
	}
	most := len(ps)
	if direct {
		most++
	}
	k := sym.Choose("place", most)
	if k == len(ps) {
		return format.Value(v)
	}
	p := ps[k]
	got := p.b().String()
	sym.Observe("text", got)
	n := len(got) - len(p.tail)
	sym.Assert(n >= len(p.head) && got[:len(p.head)] == p.head && got[n:] == p.tail, "C21 the value leaves the rest of the statement alone")
	return got[len(p.head):n]
}

func checkString(text, v string, label string) {
	sym.Observe("literal", text)
	got, n, ok := literal(text)
	sym.Assert(ok && n == len(text), label+": one quoted literal")
	if utf8.ValidString(v) {
		sym.Assert(got == v, label+": decodes to the value")
	}
}

// All short strings.
func C21_strings() {
	n := sym.Choose("length", sym.Bound(4, 5))
	v := sym.Str("value", n)
	if sym.Choose("direct", 2) == 1 {
		checkString(format.String(v), v, "C21 format.String")
		return
	}
	checkString(printed(v), v, "C21 string")
}

// Longer strings with arbitrary bytes anywhere.
func C21_long() {
	text := "a'b\\c\"d\n$1 :arg_1 ?é日\x00\x1f\x7f-- /* ; \\' ''"
	k := sym.Choose("place", len(text)+1)
	v := text[:k] + sym.Str("value", sym.Bound(2, 3)) + text[k:]
	checkString(format.Value(v), v, "C21 long string")
}

// Every valid character of each encoded length, next to others.
func C21_runes() {
	n := 2 + sym.Choose("bytes", 3)
	s := sym.Str("rune", n)
	var r rune
	switch n {
	case 2:
		sym.Assume(s[0] >= 0xC2 && s[0] <= 0xDF)
		r = rune(s[0] & 0x1F)
	case 3:
		sym.Assume(s[0] >= 0xE0 && s[0] <= 0xEF)
		r = rune(s[0] & 0x0F)
	case 4:
		sym.Assume(s[0] >= 0xF0 && s[0] <= 0xF4)
		r = rune(s[0] & 0x07)
	}
	for i := 1; i < n; i++ {
		sym.Assume(s[i] >= 0x80 && s[i] <= 0xBF)
		r = r<<6 | rune(s[i]&0x3F)
	}
	sym.Assume(n < 3 || n == 3 && r >= 0x800 && (r < 0xD800 || r > 0xDFFF) || n == 4 && r >= 0x10000 && r <= 0x10FFFF)
	v := "a" + s + "\\b"
	switch sym.Choose("how", 3) {
	case 0:
		checkString(format.String(v), v, "C21 any character")
	case 1:
		checkString(format.Value(anyValuer{v}), v, "C21 any character of a valuer")
	case 2:
		checkString(written(v, false), v, "C21 any character in a statement")
	}
}

// Strings built of the characters that matter, up to a greater length.
func C21_special() {
	n := sym.Bound(4, 6)
	v := ""
	for i := 0; i < n; i++ {
		v += []string{"'", "\\", "\n", "n", "x", "", "\r", "\t"}[sym.Choose("char", 8)]
	}
	checkString(format.Value(v), v, "C21 special characters")
}

// number is the signed number a text denotes, in canonical form: its magnitude and sign.
func number(s string) (neg bool, mag uint64, ok bool) {
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	if len(s) == 0 || len(s) > 20 || s[0] == '0' && (len(s) > 1 || neg) {
		return neg, 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return neg, 0, false
		}
		mag = mag*10 + uint64(s[i]-'0')
	}
	return neg, mag, true
}

func checkSigned(v any_, n int64) {
	text := printed(v)
	sym.Observe("literal", text)
	neg, mag, ok := number(text)
	sym.Assert(ok && neg == (n < 0), "C21 canonical decimal number")
	want := uint64(n)
	if n < 0 {
		want = -want
	}
	sym.Assert(mag == want, "C21 the exact value of the integer")
}

func checkUnsigned(v any_, n uint64) {
	text := printed(v)
	sym.Observe("literal", text)
	neg, mag, ok := number(text)
	sym.Assert(ok && !neg, "C21 canonical decimal number")
	sym.Assert(mag == n, "C21 the exact value of the integer")
}

// Integers of every type at full width, plain or out of an encoder or a valuer.
func C21_integers() {
	switch sym.Choose("type", 13) {
	case 0:
		v := sym.Int("n")
		checkSigned(v, int64(v))
	case 1:
		v := sym.Int8("n")
		checkSigned(v, int64(v))
	case 2:
		v := sym.Int16("n")
		checkSigned(v, int64(v))
	case 3:
		v := sym.Int32("n")
		checkSigned(v, int64(v))
	case 4:
		v := sym.Int64("n")
		checkSigned(v, v)
	case 5:
		v := sym.Uint("n")
		checkUnsigned(v, uint64(v))
	case 6:
		v := sym.Uint8("n")
		checkUnsigned(v, uint64(v))
	case 7:
		v := sym.Uint16("n")
		checkUnsigned(v, uint64(v))
	case 8:
		v := sym.Uint32("n")
		checkUnsigned(v, uint64(v))
	case 9:
		v := sym.Uint64("n")
		checkUnsigned(v, v)
	case 10:
		v := sym.Int64("n")
		checkSigned(anyValuer{v}, v)
	case 11:
		v := sym.Int64("n")
		checkSigned(&anyValuer{v}, v)
	case 12:
		v := sym.Int64("n")
		checkSigned(&ptrValuer{v}, v)
	}
}

type anyValuer struct{ v driver.Value }

func (a anyValuer) Value() (driver.Value, error) { return a.v, nil }

// sliceValuer is a valuer whose nil is a value, not a pointer.
type sliceValuer []string

func (s sliceValuer) Value() (driver.Value, error) {
	if s == nil {
		return nil, nil
	}
	return s[0], nil
}

type failingValuer struct{}

func (failingValuer) Value() (driver.Value, error) { return "value", errors.New("no") }

// Short byte slices.
func C21_bytes() {
	n := sym.Choose("length", sym.Bound(6, 12))
	checkBytes([]byte(sym.Str("value", n)))
}

// Byte slices around the lengths at which a buffer may be full; the bytes at both ends and around each power of two are arbitrary.
func C21_long_bytes() {
	sizes := []int{16, 17, 32, 33, 64, 65, 128, 129, 257, 513, 1025}
	n := sizes[sym.Choose("length", sym.Bound(9, len(sizes)))]
	v := make([]byte, n)
	for i := range v {
		v[i] = byte(i * 7)
	}
	for _, i := range []int{0, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n - 1} {
		if i < n {
			v[i] = sym.Byte("byte")
		}
	}
	checkBytes(v)
}

// Strings around the same lengths.
func C21_long_strings() {
	sizes := []int{16, 17, 32, 33, 64, 65, 128, 129, 257, 513, 1025}
	n := sizes[sym.Choose("length", sym.Bound(9, len(sizes)))]
	at := []int{0, n / 2, n - 1}[sym.Choose("place", 3)]
	fill := repeat("x", n)
	v := fill[:at] + sym.Str("value", 1) + fill[at+1:]
	switch sym.Choose("how", 3) {
	case 0:
		checkString(format.String(v), v, "C21 string of some length")
	case 1:
		checkString(format.Value(anyValuer{v}), v, "C21 string of some length of a valuer")
	case 2:
		got := lk.Delete("t").Where(lk.Condition("a").Equal(v)).String()
		head := `DELETE FROM "t" WHERE ("a" = `
		sym.Assert(len(got) > len(head)+1 && got[:len(head)] == head && got[len(got)-1] == ')', "C21 a long value leaves the rest of the statement alone")
		checkString(got[len(head):len(got)-1], v, "C21 string of some length in a statement")
	}
}

func checkBytes(v []byte) {
	n := len(v)
	var text string
	switch sym.Choose("how", 3) {
	case 0:
		text = format.Bytes(v)
	case 1:
		text = printed(v)
	case 2:
		text = printed(anyValuer{v})
	}
	sym.Observe("literal", text)
	head, tail := "decode('", "', 'hex')"
	if len(text) == len(head)+2*n+len(tail)-1 {
		tail = "','hex')"
	}
	sym.Assert(len(text) == len(head)+2*n+len(tail), "C21 two digits for each byte")
	sym.Assert(text[:len(head)] == head && text[len(head)+2*n:] == tail, "C21 a call of decode")
	for i := 0; i < n; i++ {
		hi, lo := text[len(head)+2*i], text[len(head)+2*i+1]
		sym.Assert((hi >= '0' && hi <= '9' || hi >= 'a' && hi <= 'f') && (lo >= '0' && lo <= '9' || lo >= 'a' && lo <= 'f'), "C21 lower-case hexadecimal digits")
		x, _ := hexDigit(hi)
		y, _ := hexDigit(lo)
		sym.Assert(byte(x*16+y) == v[i], "C21 the digits of the byte")
	}
}

// Booleans, NULL and valuers.
func C21_others() {
	b := sym.Bool("b")
	want := "false"
	if b {
		want = "true"
	}
	s := sym.Str("s", sym.Choose("length", 3))
	pv := &valuer{s}
	switch sym.Choose("value", 13) {
	case 0:
		sym.Assert(printed(b) == want, "C21 boolean")
	case 1:
		sym.Assert(format.Bool(b) == want, "C21 boolean")
	case 2:
		sym.Assert(printed(anyValuer{b}) == want, "C21 boolean of a valuer")
	case 3:
		sym.Assert(printed(nil) == "NULL", "C21 NULL")
	case 4:
		sym.Assert(printed(anyValuer{nil}) == "NULL", "C21 NULL of a valuer")
	case 5:
		sym.Assert(printed((*ptrValuer)(nil)) == "NULL", "C21 NULL of a nil valuer")
	case 6:
		sym.Assert(printed((*valuer)(nil)) == "NULL", "C21 NULL of a nil pointer to a valuer")
	case 7:
		checkString(printed(valuer{s}), s, "C21 string of a valuer")
	case 8:
		checkString(printed(pv), s, "C21 string of a valuer pointer")
	case 9:
		checkString(printed(sliceValuer{s}), s, "C21 string of a valuer slice")
		sym.Assert(printed(sliceValuer(nil)) == "NULL", "C21 NULL of a nil slice valuer")
	case 10:
		ok, crash := Try(func() { printed(failingValuer{}) })
		sym.Assert(!ok && !crash, "C21 a failing valuer is refused")
	case 11:
		sym.Assert(written((*time.Time)(nil), false) == "NULL", "C21 NULL of a nil time pointer")
	case 12:
		k := sym.Choose("encoder", 4)
		switch k {
		case 0:
			checkString(written(encStr{s}, false), s, "C21 string of an encoder")
		case 1:
			sym.Assert(written(encBool{b}, false) == want, "C21 boolean of an encoder")
		case 2:
			checkString(written(namedStr(s), false), s, "C21 string of a named type")
		case 3:
			checkString(printed(anyValuer{anyValuer{s}}), s, "C21 string of a valuer of a valuer")
		}
	}
}

// The printed value is the same wherever the value comes from.
func C21_valuers() {
	k := []int{0, 1, 6, 14, 15, 13, 12}[sym.Choose("kind", 7)]
	v, _ := MakeValue("value", k)
	if kindNames[k] == "int64" {
		v = int64(-42)
	}
	a, b := format.Value(v), format.Value(anyValuer{v})
	sym.Assert(a == b && format.Value(&anyValuer{v}) == a, "C21 a valuer prints what its value prints")
}
