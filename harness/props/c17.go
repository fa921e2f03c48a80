package props

import (
	"github.com/pkg/errors"

	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
)

// conditionParts counts the comparisons and operators of a rendered condition.
func conditionParts(sql string) (eq, and, or, not int) {
	for _, t := range ref.Lex(sql) {
		switch {
		case t.Kind == 'o' && t.Text == "=":
			eq++
		case t.Kind == 'w' && t.Text == "AND":
			and++
		case t.Kind == 'w' && t.Text == "OR":
			or++
		case t.Kind == 'w' && t.Text == "NOT":
			not++
		}
	}
	return
}

// checkParse states C17 for one string.
func checkParse(text string) {
	var join stmt.Join
	var err error
	ok, crash := Try(func() { join, err = parser.ParseJoin(text) })
	sym.Assert(!crash, "C17 no run-time error")
	sym.Assert(ok, "C17 an error is returned, not thrown")
	if err != nil {
		sym.Observe("error", err.Error())
		sym.Assert(errors.Cause(err) == parser.ErrJoinInvalidCondition, "C17 the documented error")
		sym.Assert(join.Condition == nil && join.Table.IsEmpty(), "C17 no join along with an error")
		return
	}
	wantEq, wantAnd, wantOr, wantNot := 0, 0, 0, 0
	for _, t := range ref.LexJoin(text) {
		switch {
		case t.Kind == '=':
			wantEq++
		case t.Word == "AND":
			wantAnd++
		case t.Word == "OR":
			wantOr++
		case t.Word == "NOT":
			wantNot++
		}
	}
	eq, and, or, not := 0, 0, 0, 0
	if join.Condition != nil {
		sql := ""
		ok, _ = Try(func() {
			join.Table = lk.Table("z")
			sql = lk.Select("x").From("f").Join(join).String()
		})
		sym.Assert(ok, "C17 the parsed condition can be rendered")
		sym.Observe("join", sql)
		eq, and, or, not = conditionParts(sql)
	}
	sym.Assert(eq == wantEq, "C17 every comparison is kept")
	sym.Assert(and == wantAnd && or == wantOr && not == wantNot, "C17 every operator is kept")
}

// Any bytes, alone and at the places where a parser could go wrong.
func C17_bytes() {
	in := sym.Str("input", sym.Choose("length", sym.Bound(4, 6)))
	checkParse(in)
}

func C17_inside() {
	in := sym.Str("input", sym.Choose("length", sym.Bound(3, 5)))
	switch sym.Choose("place", 6) {
	case 0:
		checkParse("t ON a = b" + in)
	case 1:
		checkParse("t ON a = b AND" + in)
	case 2:
		checkParse("t ON " + in + " b OR c = d")
	case 3:
		checkParse("LEFT" + in + "t ON a = b")
	case 4:
		checkParse("t ON a = b OR c" + in + "d")
	case 5:
		checkParse(in + "t ON a = b AND c = d")
	}
}

// Any sequence of tokens.
var joinWords = []string{"a", "=", "AND", "OR", "ON", "JOIN", "(", ")", ";", "INNER", "*", "NOT", "<", "LEFT", ",", "SELECT", "RIGHT", "\x00"}

func C17_tokens() {
	text := ""
	n := sym.Choose("tokens", sym.Bound(4, 6)+1)
	switch sym.Choose("start", 4) {
	case 1:
		text = "t ON"
	case 2:
		text = "a = b"
	case 3:
		text = "t ON (a = b AND c = d"
	}
	for i := 0; i < n; i++ {
		text += " " + joinWords[sym.Choose("token", sym.Bound(12, 18))]
	}
	checkParse(text)
}

// Sequences of tokens of a condition only, longer.
func C17_conditions() {
	words := []string{"a", "=", "AND", "OR"}
	text := ""
	n := sym.Choose("tokens", sym.Bound(8, 10))
	for i := 0; i < n; i++ {
		text += " " + words[sym.Choose("token", 4)]
	}
	checkParse(text)
}

// Join refuses what does not parse to a whole join; it never renders a part of one.
func C17_builder() {
	text := ""
	n := sym.Choose("tokens", sym.Bound(4, 6))
	if sym.Choose("start", 2) == 1 {
		text = "t ON a = b"
	}
	for i := 0; i < n; i++ {
		text += " " + joinWords[sym.Choose("token", 12)]
	}
	sql := ""
	table := sym.Choose("table apart", 2) == 1
	ok, crash := Try(func() {
		if table {
			sql = lk.Select("x").From("f").Join("z", text).String()
		} else {
			sql = lk.Select("x").From("f").Join(text).String()
		}
	})
	sym.Assert(!crash, "C17 no run-time error in Join")
	if !ok {
		return
	}
	want := 0
	for _, t := range ref.LexJoin(text) {
		if t.Kind == '=' {
			want++
		}
	}
	eq, _, _, _ := conditionParts(sql)
	sym.Assert(want > 0 && eq == want, "C17 Join renders every comparison, or refuses")
}
