package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// joinSpec is a join as its author means it.
type joinSpec struct {
	kind  int // 0 and 1: INNER JOIN by default, then INNER JOIN, LEFT JOIN, RIGHT JOIN
	table string
	on    bool
	sides []string // left and right of every condition
	or    []bool   // the operator between the conditions
}

func (j joinSpec) joinType() types.JoinType {
	switch j.kind {
	case 3:
		return types.LeftJoin
	case 4:
		return types.RightJoin
	}
	return types.InnerJoin
}

// condition is the SQL text of the condition.
func (j joinSpec) condition() string {
	text := ref.Quote(j.sides[0]) + " = " + ref.Quote(j.sides[1])
	for i, or := range j.or {
		op := " AND "
		if or {
			op = " OR "
		}
		text = "(" + text + op + ref.Quote(j.sides[2*i+2]) + " = " + ref.Quote(j.sides[2*i+3]) + ")"
	}
	return text
}

func (j joinSpec) clause(table string) string {
	return string(j.joinType()) + " " + ref.Quote(table) + " ON " + j.condition()
}

// spelling decides how the tokens of a join string are written.
type spelling struct {
	word  func(keyword string) string
	gap   func() string // between words
	space func() string // where white space is optional
	paren int           // parentheses around the condition
	end   string
}

func plainSpelling() spelling {
	return spelling{word: func(w string) string { return w }, gap: func() string { return " " }, space: func() string { return "" }}
}

func (j joinSpec) text(s spelling) string {
	out := s.space()
	switch j.kind {
	case 2:
		out += s.word("INNER") + s.gap()
	case 3:
		out += s.word("LEFT") + s.gap()
	case 4:
		out += s.word("RIGHT") + s.gap()
	}
	if j.kind > 0 {
		out += s.word("JOIN") + s.gap()
	}
	if j.table != "" {
		out += j.table + s.gap()
	}
	if j.on {
		out += s.word("ON")
		if s.paren > 0 {
			out += s.space()
		} else {
			out += s.gap()
		}
	}
	for i := 0; i < s.paren; i++ {
		out += "(" + s.space()
	}
	for i := 0; i < len(j.sides); i += 2 {
		if i > 0 {
			w := "AND"
			if j.or[i/2-1] {
				w = "OR"
			}
			out += s.gap() + s.word(w) + s.gap()
		}
		out += j.sides[i] + s.space() + "=" + s.space() + j.sides[i+1]
	}
	for i := 0; i < s.paren; i++ {
		out += s.space() + ")"
	}
	return out + s.space() + s.end + s.space()
}

// checkJoin states C16 for one join string.
func checkJoin(j joinSpec, text string) {
	var join stmt.Join
	var err error
	ok, _ := Try(func() { join, err = parser.ParseJoin(text) })
	sym.Observe("text", text)
	sym.Assert(ok && err == nil, "C16 a well-formed join is accepted")
	sym.Assert(join.Type == j.joinType(), "C16 join type")
	sym.Assert(join.Table.Name == j.table && join.Table.Alias == "", "C16 join table")
	if j.table == "" {
		join.Table = lk.Table("z")
		sym.Assert(ref.SameSQL(lk.Select("x").From("f").Join(join).String(), `SELECT "x" FROM "f" `+j.clause("z")), "C16 join condition")
		return
	}
	sym.Assert(ref.SameSQL(lk.Select("x").From("f").Join(join).String(), `SELECT "x" FROM "f" `+j.clause(j.table)), "C16 rendered join")
	var q string
	ok, _ = Try(func() { q, _ = lk.Select("x").From("f").Join(text).Query() })
	sym.Assert(ok && ref.SameSQL(q, `SELECT "x" FROM "f" `+j.clause(j.table)), "C16 JOIN clause of a join string")
}

// anyShape chooses the parts of the join and n conditions between them.
func anyShape(n int) joinSpec {
	j := joinSpec{kind: sym.Choose("kind", 5)}
	switch sym.Choose("table", 3) {
	case 0:
		j.on = true
	case 1:
		j.table, j.on = "t2", true
	}
	names := []string{"t1.id", "t2.t_1", "a", "B.c", "d", "e.f", "g", "h9", "i", "j.k", "l", "m", "x1", "x2", "x3", "x4"}
	for i := 0; i < n; i++ {
		j.sides = append(j.sides, names[2*i], names[2*i+1])
		if i > 0 {
			j.or = append(j.or, sym.Choose("operator", 2) == 1)
		}
	}
	return j
}

// Every arrangement of the parts, and every sequence of operators.
func C16_structure() {
	j := anyShape(1 + sym.Choose("conditions", sym.Bound(4, 7)))
	s := plainSpelling()
	s.paren = sym.Choose("parentheses", 3)
	if sym.Choose("semicolon", 2) == 1 {
		s.end = ";"
	}
	if sym.Choose("spaces", 2) == 1 {
		s.space = func() string { return " " }
	}
	checkJoin(j, j.text(s))
}

// Conditions some of which may be the same, or compare a column with itself.
func C16_repeated() {
	j := joinSpec{kind: sym.Choose("kind", 5), table: []string{"t2", ""}[sym.Choose("table", 2)], on: true}
	n := 1 + sym.Choose("conditions", sym.Bound(4, 5))
	for i := 0; i < n; i++ {
		j.sides = append(j.sides, anyLetter(), anyLetter())
		if i > 0 {
			j.or = append(j.or, sym.Choose("operator", 2) == 1)
		}
	}
	checkJoin(j, j.text(plainSpelling()))
}

// anyLetter is "a", "b" or "c".
func anyLetter() string {
	s := sym.Str("letter", 1)
	sym.Assume(s[0] >= 'a' && s[0] <= 'c')
	return s
}

// anyWord is a name of exactly n characters, any of those a name may have, that is not a keyword.
func anyWord(name string, n int) string {
	w := sym.Str(name, n)
	for i := 0; i < n; i++ {
		c := w[i]
		sym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.')
	}
	sym.Assume(ref.IsKeyword(w) == "")
	return w
}

// Any identifiers.
func C16_identifiers() {
	j := joinSpec{kind: 3, on: true}
	long := sym.Choose("which", 5)
	k := 1 + sym.Choose("characters", sym.Bound(3, 5))
	length := func(i int) int {
		if i == long {
			return k
		}
		return 1
	}
	j.table = anyWord("table", length(0))
	j.sides = []string{anyWord("a", length(1)), anyWord("b", length(2)), anyWord("c", length(3)), anyWord("d", length(4))}
	j.or = []bool{sym.Choose("operator", 2) == 1}
	checkJoin(j, j.text(plainSpelling()))
}

func anySpace() string {
	w := sym.Str("space", 1)
	sym.Assume(w[0] == ' ' || w[0] == '\t' || w[0] == '\n' || w[0] == '\r')
	return w
}

// Any white space between the tokens, and none or some where it is optional.
func C16_spacing() {
	j := joinSpec{kind: sym.Choose("kind", 5), table: "t2", on: true, sides: []string{"a", "b", "c", "d"}, or: []bool{sym.Choose("operator", 2) == 1}}
	s := plainSpelling()
	wide := sym.Choose("wide", 2)
	s.gap = func() string {
		if wide == 1 {
			return anySpace() + anySpace()
		}
		return anySpace()
	}
	one := sym.Choose("optional", 20)
	k := 0
	s.space = func() string {
		k++
		if one == 19 || one+1 == k {
			return anySpace()
		}
		return ""
	}
	s.paren = sym.Choose("parentheses", 2)
	if sym.Choose("semicolon", 2) == 1 {
		s.end = ";"
	}
	checkJoin(j, j.text(s))
}

// Keywords in any mixture of upper and lower case.
func C16_case() {
	j := joinSpec{kind: sym.Choose("kind", 5), table: "t2", on: true, sides: []string{"a", "b", "c", "d"}, or: []bool{sym.Choose("operator", 2) == 1}}
	s := plainSpelling()
	s.word = anyCase
	checkJoin(j, j.text(s))
}

// The forms of Join that take a join string: the table apart, and the type apart.
func C16_builder() {
	j := anyShape(1 + sym.Choose("conditions", 2))
	if j.table != "" {
		return
	}
	s := plainSpelling()
	s.word = func(w string) string {
		if sym.Choose("lower", 2) == 1 {
			return anyCase(w)
		}
		return w
	}
	s.paren = sym.Choose("parentheses", 2)
	text := j.text(s)
	name := anyWord("table", 2)
	var table any_ = name
	if sym.Choose("table object", 2) == 1 {
		table = lk.Table(name)
	}
	kinds := []types.JoinType{types.InnerJoin, types.LeftJoin, types.RightJoin, types.LeftOuterJoin, types.RightOuterJoin}
	k := sym.Choose("type", len(kinds)+1)
	kind := j.joinType()
	var b builder.Select
	ok, _ := Try(func() {
		if k < len(kinds) {
			kind = kinds[k]
			b = lk.Select("x").From("f").Join(table, text, kind)
		} else {
			b = lk.Select("x").From("f").Join(table, text)
		}
	})
	sym.Assert(ok, "C16 a well-formed condition is accepted")
	want := `SELECT "x" FROM "f" ` + string(kind) + " " + ref.Quote(name) + " ON " + j.condition()
	sym.Assert(ref.SameSQL(b.String(), want), "C16 JOIN clause of a table and a condition")
}
