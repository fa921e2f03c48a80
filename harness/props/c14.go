package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// conflictArg is one argument of OnConflict: a target, an action, or something it must refuse.
type conflictArg struct {
	given  any_
	target string // a target column
	action string // the text of an action, '?' for values
	update bool
	args   []any_
}

const nConflictArgs = 21

func conflictArgOf(k int) conflictArg {
	switch k {
	case 0:
		c := anyColumn(1)
		return conflictArg{given: c, target: c}
	case 1:
		c := anyColumn(1)
		return conflictArg{given: lk.Column(c), target: c}
	case 2:
		return conflictArg{given: lk.DoNothing(), action: "DO NOTHING"}
	case 3:
		v, c := sym.Int64("v"), anyColumn(1)
		return conflictArg{given: lk.DoUpdate(lk.Pair(c, v), lk.Pair("p", lk.Raw("1"))), action: `DO UPDATE SET ` + ref.Quote(c) + ` = ?, "p" = 1`, update: true, args: []any_{v}}
	case 4:
		v, w := sym.Int64("v"), sym.Str("w", 1)
		return conflictArg{given: lk.DoUpdate(lk.Map{"q": v, "p": w}, lk.Pair("r", lk.Raw("EXCLUDED.r"))),
			action: `DO UPDATE SET "p" = ?, "q" = ?, "r" = EXCLUDED.r`, update: true, args: []any_{w, v}}
	case 5:
		v, w := sym.Int64("v"), sym.Bool("w")
		return conflictArg{given: lk.DoUpdate(lk.Pair("q", subq(v)), lk.Pair("p", nil), lk.Pair("s", w)),
			action: `DO UPDATE SET "p" = NULL, "q" = (SELECT "i" FROM "j" WHERE ("k" = ?)), "s" = ?`, update: true, args: []any_{v, w}}
	case 6:
		return conflictArg{given: stmt.NewConflictUpdateAction(stmt.NewSet())}
	case 7:
		return conflictArg{given: stmt.ConflictUpdateAction{}}
	case 8:
		return conflictArg{given: lk.DoUpdate(lk.Map{})}
	case 9:
		return conflictArg{given: nil}
	case 10:
		return conflictArg{given: 42}
	case 11:
		return conflictArg{given: []string{"a"}}
	case 12:
		return conflictArg{given: lk.Raw("a")}
	case 13:
		return conflictArg{given: ""}
	case 14:
		return conflictArg{given: lk.Column("")}
	case 15:
		return conflictArg{given: lk.Pair("a", 1)}
	case 16:
		return conflictArg{given: stmt.NewConflictTarget([]stmt.Column{lk.Column("a")})}
	case 17:
		return conflictArg{given: lk.Map{"a": 1}}
	case 18:
		return conflictArg{given: []any_{"a", lk.DoNothing()}}
	case 19:
		return conflictArg{given: true}
	}
	return conflictArg{given: " "}
}

// Any list of arguments: rendered as specified, or refused.
func C14_arguments() {
	sym.MapOrder(1)
	n := sym.Choose("arguments", sym.Bound(3, 4)+1)
	var given []any_
	valid := false
	targets, text := 0, "ON CONFLICT "
	var args []any_
	bad := false
	for i := 0; i < n; i++ {
		a := conflictArgOf(sym.Choose("argument", nConflictArgs))
		given = append(given, a.given)
		last := i == n-1
		switch {
		case a.target != "" && !last:
			if targets == 0 {
				text += "("
			} else {
				text += ", "
			}
			text += ref.Quote(a.target)
			targets++
		case a.action != "" && last && (targets > 0 || !a.update):
			valid = !bad
			if targets > 0 {
				text += ") "
			}
			text += a.action
			args = append(args, a.args...)
		default:
			bad = true
		}
	}
	before, after := sym.Int64("before"), sym.Int64("after")
	var s snap
	ok, crash := Try(func() {
		b := lk.Insert("t").Columns("c").Values(before).Returning(lk.Exists(subq(after)))
		s = take(b.OnConflict(given...))
	})
	sym.Assert(!crash, "C14 refused by the library, not by a crash")
	if !valid {
		sym.Assert(!ok || !s.ok, "C14 malformed arguments are refused")
		return
	}
	sym.Assert(ok && s.ok, "C14 well-formed arguments are accepted")
	sym.Observe("query", s.text)
	tmpl := `INSERT INTO "t" ("c") VALUES (?) ` + text + ` RETURNING EXISTS (SELECT "i" FROM "j" WHERE ("k" = ?))`
	args = append(append([]any_{before}, args...), after)
	sym.Assert(ref.SameSQL(s.text, ref.Fill(tmpl, dollar)), "C14 target and action as given")
	sym.Assert(ref.SameSQL(s.ntext, ref.Fill(tmpl, named)), "C14 target and action as given, named")
	sym.Assert(SameArgs(s.args, args), "C14 assigned values")
}

// Targets some of which may have the same name: each is there.
func C14_repeated() {
	n := 1 + sym.Choose("targets", sym.Bound(4, 5))
	var given []any_
	text := "ON CONFLICT ("
	for i := 0; i < n; i++ {
		c := anyLetter()
		if i > 0 {
			text += ", "
		}
		text += ref.Quote(c)
		if sym.Choose("column", 2) == 1 {
			given = append(given, lk.Column(c))
		} else {
			given = append(given, c)
		}
	}
	if sym.Choose("nothing", 2) == 1 {
		checkTemplate(lk.Insert("t").OnConflict(append(given, lk.DoNothing())...), `INSERT INTO "t" `+text+") DO NOTHING", nil, "C14 targets that may be the same")
		return
	}
	c := anyLetter()
	v := sym.Int64("v")
	given = append(given, lk.DoUpdate(lk.Pair(c, v)))
	checkTemplate(lk.Insert("t").OnConflict(given...), `INSERT INTO "t" `+text+") DO UPDATE SET "+ref.Quote(c)+" = ?", []any_{v}, "C14 targets that may be the same")
}

// longOf is a small number or a larger one.
func longOf(name string) int {
	small := sym.Bound(6, 12)
	k := sym.Choose(name, small+3)
	if k < small {
		return k + 1
	}
	return []int{17, 33, 65}[k-small]
}

// A long list of targets and of assignments.
func C14_long() {
	n, m := longOf("targets"), longOf("assignments")
	var given, pairs, args []any_
	text := "ON CONFLICT ("
	for i := 0; i < n; i++ {
		c := "t" + pad(n-i)
		if i > 0 {
			text += ", "
		}
		text += ref.Quote(c)
		if i%2 == 0 {
			given = append(given, c)
		} else {
			given = append(given, lk.Column(c))
		}
	}
	if sym.Choose("nothing", 2) == 1 {
		s := take(lk.Insert("t").OnConflict(append(given, lk.DoNothing())...))
		sym.Assert(s.ok && ref.SameSQL(s.text, `INSERT INTO "t" `+text+") DO NOTHING") && s.text == s.ntext && len(s.args) == 0, "C14 every target")
		return
	}
	text += ") DO UPDATE SET "
	for i := 0; i < m; i++ {
		c := "u" + pad(i)
		v := sym.Int64("v")
		if i > 0 {
			text += ", "
		}
		text += ref.Quote(c) + " = ?"
		pairs = append(pairs, lk.Pair(c, v))
		args = append(args, v)
	}
	given = append(given, lk.DoUpdate(pairs...))
	var b builder.Builder = lk.Insert("t").OnConflict(given...)
	s := take(b)
	sym.Assert(s.ok && ref.SameSQL(s.text, ref.Fill(`INSERT INTO "t" `+text, dollar)), "C14 every target and assignment")
	sym.Assert(SameArgs(s.args, args), "C14 every assigned value")
}

// DoUpdate refuses what is no assignment.
func C14_update() {
	args := []any_{nil, 42, "a", lk.Column("a"), []any_{lk.Pair("a", 1)}, lk.Raw("a = 1"), lk.Pair("", 1), lk.Pair(lk.Column(""), 1),
		lk.Pair(3, 1), lk.Pair(nil, 1), lk.Map{"": 1}, map[string]interface{}{" ": 1}, map[string]int{"a": 1}, &builder.Select{}, lk.Pair("a", struct{}{})}
	k := sym.Choose("argument", len(args)+1)
	var given []any_
	switch sym.Choose("around", 3) {
	case 1:
		given = []any_{lk.Pair("x", sym.Int64("v"))}
	case 2:
		sym.Assume(k < len(args)) // a pair followed by nothing is fine
	}
	if k < len(args) {
		given = append(given, args[k])
	} else if len(given) > 0 {
		return
	}
	ok, crash := Try(func() { lk.Insert("t").OnConflict("c", lk.DoUpdate(given...)).Query() })
	sym.Assert(!ok && !crash, "C14 an update without a well-formed assignment is refused")
}
