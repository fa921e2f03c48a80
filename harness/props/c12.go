package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// write is one assignment: a column and the value given to it.
type write struct {
	col string
	v   any_
}

// lastWrites is what remains of a sequence of assignments, by column name.
func lastWrites(ws []write) (cols []string, args []any_) {
	for i := 0; i < len(ws); i++ {
		at, found := 0, false
		for at < len(cols) {
			if cols[at] == ws[i].col {
				found = true
				break
			}
			if cols[at] > ws[i].col {
				break
			}
			at++
		}
		if found {
			args[at] = ws[i].v
			continue
		}
		cols = append(cols, "")
		args = append(args, nil)
		copy(cols[at+1:], cols[at:])
		copy(args[at+1:], args[at:])
		cols[at], args[at] = ws[i].col, ws[i].v
	}
	return
}

// setText is the expected statement for a target: 0 UPDATE SET, 1 INSERT Set, 2 DO UPDATE SET.
func setText(target int, cols []string, args []any_, mark func(i int) string) string {
	k := 0
	at := func(i int) string {
		if args[i] == nil {
			return "NULL"
		}
		if c, ok := args[i].(cell); ok {
			return ref.Fill(c.text, func(int) string { k++; return mark(k - 1) })
		}
		k++
		return mark(k - 1)
	}
	s := ""
	switch target {
	case 0:
		s = `UPDATE "t" SET `
	case 1:
		s = `INSERT INTO "t" (`
	case 2:
		s = `INSERT INTO "t" ON CONFLICT ("k") DO UPDATE SET `
	}
	if target == 1 {
		for i, c := range cols {
			if i > 0 {
				s += ", "
			}
			s += ref.Quote(c)
		}
		s += ") VALUES ("
		for i := range cols {
			if i > 0 {
				s += ", "
			}
			s += at(i)
		}
		return s + ")"
	}
	for i, c := range cols {
		if i > 0 {
			s += ", "
		}
		s += ref.Quote(c) + " = " + at(i)
	}
	return s
}

// setBuilder makes the builder for a target, from calls that each take some arguments.
func setBuilder(target int, calls [][]any_) builder.Builder {
	switch target {
	case 0:
		b := lk.Update("t")
		for _, c := range calls {
			b = b.Set(c...)
		}
		return b
	case 1:
		var all []any_
		for _, c := range calls {
			all = append(all, c...)
		}
		return lk.Insert("t").Set(all...)
	}
	var all []any_
	for _, c := range calls {
		all = append(all, c...)
	}
	return lk.Insert("t").OnConflict("k", lk.DoUpdate(all...))
}

func checkSet(target int, calls [][]any_, ws []write, what string) {
	var b builder.Builder
	ok, _ := Try(func() { b = setBuilder(target, calls) })
	sym.Assert(ok, "C12 accepted: "+what)
	s := take(b)
	sym.Assert(s.ok, "C12 renders: "+what)
	sym.Observe("query", s.text)
	cols, vals := lastWrites(ws)
	var args []any_
	for _, v := range vals {
		if c, ok := v.(cell); ok {
			args = append(args, c.args...)
		} else if v != nil {
			args = append(args, v)
		}
	}
	sym.Assert(ref.SameSQL(s.text, setText(target, cols, vals, dollar)), "C12 each column once, in order: "+what)
	sym.Assert(ref.SameSQL(s.ntext, setText(target, cols, vals, named)), "C12 each column once, in order, named: "+what)
	sym.Assert(SameArgs(s.args, args), "C12 the last value written: "+what)
}

var targets = []string{"UPDATE SET", "INSERT Set", "DO UPDATE SET"}

// anyColumn is an arbitrary plain column name (C04 is about the other characters).
func anyColumn(n int) string {
	c := "c" + sym.Str("column", n)
	for i := 1; i < len(c); i++ {
		sym.Assume(c[i] >= '0' && c[i] <= 'z' && c[i] != '?')
	}
	return c
}

// A sequence of assignments to arbitrary columns, each given in some form, split over calls in some way.
func C12_writes() {
	sym.MapOrder(sym.Bound(1, 2))
	target := sym.Choose("target", 3)
	n := sym.Bound(3, 4)
	ws := make([]write, n)
	var calls [][]any_
	for i := range ws {
		c := anyColumn(1)
		v := any_(sym.Int64("value"))
		if i == 1 && sym.Choose("nil", 2) == 1 {
			v = nil
		}
		ws[i] = write{c, v}
		var arg any_
		switch sym.Choose("form", 5) {
		case 0:
			arg = lk.Pair(c, v)
		case 1:
			arg = lk.Pair(lk.Column(c), v)
		case 2:
			arg = lk.Map{c: v}
		case 3:
			arg = map[string]interface{}{c: v}
		case 4:
			arg = lk.Pair(" "+c+"\t", v)
		}
		if i == 0 || target == 0 && sym.Choose("new call", 2) == 1 {
			calls = append(calls, []any_{arg})
		} else {
			calls[len(calls)-1] = append(calls[len(calls)-1], arg)
		}
	}
	checkSet(target, calls, ws, targets[target])
}

// rawWord is a word of exactly n upper-case letters.
func rawWord(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] >= 'A' && s[i] <= 'Z')
	}
	return s
}

// anyCell is a value of one of several kinds, with its text and what it binds.
func anyCell(k int) cell {
	v := sym.Int64("v")
	switch k {
	case 0:
		return cellOf(v)
	case 1:
		return cell{nil, "NULL", nil}
	case 2:
		return cellOf(sym.Text("v", 0, 12))
	case 3:
		return cellOf(sym.Bool("v"))
	case 4, 5, 6, 7:
		w := rawWord("raw", []int{1, 4, 5, 7}[k-4])
		return cell{lk.Raw(w), w, nil}
	case 8:
		return cell{subq(v), "(" + subj + ")", []any_{v}}
	case 9:
		return cell{stmt.NewCall("f", lk.Value(v), lk.Raw("x")), "f(?, x)", []any_{v}}
	case 10:
		w := sym.Byte("v")
		return cell{[]byte{w}, "?", []any_{[]byte{w}}}
	case 11:
		return cell{lk.Value(nil), "NULL", nil}
	case 12:
		return cell{[]byte(nil), "?", []any_{[]byte(nil)}}
	}
	return cellOf("")
}

const nCells = 14

// Two or three assignments to columns that may be the same, of values of any kind.
func C12_cells() {
	sym.MapOrder(1)
	target := sym.Choose("target", 3)
	n := 2 + sym.Choose("writes", sym.Bound(1, 2))
	ws := make([]write, n)
	var calls [][]any_
	for i := range ws {
		c := anyColumn(1)
		v := anyCell(sym.Choose("cell", nCells))
		ws[i] = write{c, v}
		arg := any_(lk.Pair(c, v.given))
		if i == 1 && sym.Choose("map", 2) == 1 {
			arg = lk.Map{c: v.given}
		}
		if i == 0 || target == 0 && sym.Choose("new call", 2) == 1 {
			calls = append(calls, []any_{arg})
		} else {
			calls[len(calls)-1] = append(calls[len(calls)-1], arg)
		}
	}
	checkSet(target, calls, ws, targets[target]+" of values of any kind")
}

// Columns whose names begin alike, and names of any length, are told apart.
func C12_long_names() {
	target := sym.Choose("target", 3)
	n := []int{1, 7, 8, 15, 31, 62, 63, 64, 127}[sym.Choose("length", sym.Bound(8, 9))]
	head := repeat("p", n)
	a, b, c := head+anyLetter(), head+anyLetter()+"x", head
	var ws []write
	var args []any_
	for _, col := range []string{a, b, c, a} {
		v := sym.Int64("v")
		ws = append(ws, write{col, v})
		args = append(args, lk.Pair(col, v))
	}
	checkSet(target, [][]any_{args}, ws, targets[target]+" of columns whose names begin alike")
}

// Whole maps, in every iteration order, mixed with pairs that overwrite them.
func C12_maps() {
	sym.MapOrder(0)
	target := sym.Choose("target", 3)
	n := 2 + sym.Choose("entries", 2)
	names := [][]string{{"a", "b", "c"}, {"B", "a", "C"}, {"a.b", "a", "ab"}, {"a10", "a9", "a1"}, {"\u00e9", "z", "Z"}}[sym.Choose("names", 5)]
	var ws []write
	m, ms := lk.Map{}, map[string]interface{}{}
	strings := sym.Choose("strings", 2) == 1
	for i := 0; i < n; i++ {
		v := sym.Int64("v")
		ws = append(ws, write{names[i], v})
		if strings {
			ms[names[i]] = v
		} else if i == 1 {
			m[lk.Column(names[i])] = v
		} else {
			m[names[i]] = v
		}
	}
	arg := any_(m)
	if strings {
		arg = ms
	}
	args := []any_{arg}
	switch sym.Choose("and", 4) {
	case 1:
		v := sym.Int64("w")
		args = append(args, lk.Pair(names[1], v))
		ws = append(ws, write{names[1], v})
	case 2:
		v := sym.Int64("w")
		args = append([]any_{lk.Pair(names[1], v)}, args...)
		ws = append([]write{{names[1], v}}, ws...)
	case 3:
		v, w := sym.Int64("w"), sym.Int64("w2")
		args = append(args, map[string]interface{}{names[0]: v, "zz": w})
		ws = append(ws, write{names[0], v}, write{"zz", w})
	}
	checkSet(target, [][]any_{args}, ws, targets[target]+" of maps")
}

// A map with many entries, forwards and backwards.
func C12_large_map() {
	sym.MapOrder(1 + sym.Choose("map order", 2))
	target := sym.Choose("target", 3)
	n := sym.Bound(14, 24)
	m := lk.Map{}
	var ws []write
	for i := 0; i < n; i++ {
		v := sym.Int64("v")
		c := "c" + ref.Itoa((i*7)%n) // not in order
		m[c] = v
		ws = append(ws, write{c, v})
	}
	checkSet(target, [][]any_{{m}}, ws, targets[target]+" of a large map")
}

// Many pairs.
func C12_many_pairs() {
	target := sym.Choose("target", 3)
	n := sym.Bound(20, 40)
	var ws []write
	var args []any_
	for i := 0; i < n; i++ {
		v := sym.Int64("v")
		c := "c" + ref.Itoa((i*7)%(n-3)) // three columns are written twice
		args = append(args, lk.Pair(c, v))
		ws = append(ws, write{c, v})
	}
	calls := [][]any_{args}
	if sym.Choose("split", 2) == 1 {
		k := sym.Choose("at", n-1) + 1
		calls = [][]any_{args[:k], args[k:]}
	}
	checkSet(target, calls, ws, targets[target]+" of many pairs")
}

// A map that names one column twice has no last write: it is refused, whatever the order.
func C12_same_column_twice() {
	sym.MapOrder(0)
	target := sym.Choose("target", 3)
	var arg any_
	switch sym.Choose("form", 3) {
	case 0:
		arg = lk.Map{"a": sym.Int64("v"), lk.Column("a"): sym.Int64("w")}
	case 1:
		arg = lk.Map{"a": sym.Int64("v"), " a": sym.Int64("w")}
	case 2:
		arg = map[string]interface{}{"a": sym.Int64("v"), "a ": sym.Int64("w"), "b": 1}
	}
	ok, crash := Try(func() { setBuilder(target, [][]any_{{arg}}).Query() })
	sym.Assert(!ok && !crash, "C12 a map that names a column twice is refused: "+targets[target])
}

// Values that are expressions and subqueries follow the same rule.
func C12_expressions() {
	sym.MapOrder(1)
	v, w := sym.Int64("v"), sym.Int64("w")
	c, d := anyColumn(1), anyColumn(1)
	sym.Assume(c < d)
	args := []any_{lk.Pair(d, lk.Raw("now()")), types.Map{c: subq(v)}, lk.Pair(d, w)}
	want := ref.Quote(c) + ` = (SELECT "i" FROM "j" WHERE ("k" = $1)), ` + ref.Quote(d) + " = $2"
	wantArgs := []any_{v, w}
	if sym.Choose("last", 2) == 1 {
		args = append(args, lk.Pair(c, lk.Raw("1 + 1")))
		want = ref.Quote(c) + " = 1 + 1, " + ref.Quote(d) + " = $1"
		wantArgs = []any_{w}
	}
	s := take(lk.Update("t").Set(args...))
	sym.Assert(s.ok && ref.SameSQL(s.text, `UPDATE "t" SET `+want) && SameArgs(s.args, wantArgs), "C12 expressions: last write wins")
	s = take(lk.Insert("t").OnConflict("k", lk.DoUpdate(args...)))
	sym.Assert(s.ok && ref.SameSQL(s.text, `INSERT INTO "t" ON CONFLICT ("k") DO UPDATE SET `+want) && SameArgs(s.args, wantArgs), "C12 expressions: last write wins, conflict")
}
