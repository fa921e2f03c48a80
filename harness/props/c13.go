package props

import (
	"verifharness/ref"
	"verifharness/sym"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// cell is one value of a row: what is given, its text with '?' for a bound value, and what is bound.
type cell struct {
	given any_
	text  string
	args  []any_
}

func cellOf(v any_) cell { return cell{v, "?", []any_{v}} }

// rowsText is the VALUES list of the cells, and the values it binds.
func rowsText(rows [][]cell) (string, []any_) {
	s, args := "", []any_{}
	for i, r := range rows {
		if i > 0 {
			s += ", "
		}
		s += "("
		for j, c := range r {
			if j > 0 {
				s += ", "
			}
			s += c.text
			args = append(args, c.args...)
		}
		s += ")"
	}
	return s, args
}

func checkRows(b func() builder.Builder, head string, rows [][]cell, tail, what string) {
	text, args := rowsText(rows)
	tmpl := head + " VALUES " + text + tail
	var s snap
	ok, _ := Try(func() { s = take(b()) })
	sym.Assert(ok && s.ok, "C13 renders: "+what)
	sym.Observe("query", s.text)
	sym.Assert(ref.SameSQL(s.text, ref.Fill(tmpl, dollar)), "C13 rows as given: "+what)
	sym.Assert(ref.SameSQL(s.ntext, ref.Fill(tmpl, named)), "C13 rows as given, named: "+what)
	sym.Assert(SameArgs(s.args, args), "C13 values in order: "+what)
}

const nRowSlices = 6

var rowSliceNames = [nRowSlices]string{"[][]interface{}", "[][]string", "[][]int", "[][]int64", "[][]bool", "[][]Expression"}

// rowSlice makes rows of a slice type, of the given widths.
func rowSlice(k int, widths []int) (given any_, rows [][]cell) {
	rows = make([][]cell, len(widths))
	switch k {
	case 0:
		g := make([][]interface{}, len(widths))
		for i, w := range widths {
			for j := 0; j < w; j++ {
				c := cellOf(sym.Int64("cell"))
				if i == 1 {
					switch j {
					case 0:
						c = cell{nil, "NULL", nil}
					case 1:
						c = cellOf(sym.Str("cell", 1))
					case 2:
						c = cell{lk.Raw("now()"), "now()", nil}
					}
				}
				g[i] = append(g[i], c.given)
				rows[i] = append(rows[i], c)
			}
		}
		share(g, rows)
		return g, rows
	case 1:
		g := make([][]string, len(widths))
		for i, w := range widths {
			for j := 0; j < w; j++ {
				v := sym.Str("cell", 1)
				g[i], rows[i] = append(g[i], v), append(rows[i], cellOf(v))
			}
		}
		share(g, rows)
		return g, rows
	case 2:
		g := make([][]int, len(widths))
		for i, w := range widths {
			for j := 0; j < w; j++ {
				v := sym.Int("cell")
				g[i], rows[i] = append(g[i], v), append(rows[i], cellOf(v))
			}
		}
		share(g, rows)
		return g, rows
	case 3:
		g := make([][]int64, len(widths))
		for i, w := range widths {
			for j := 0; j < w; j++ {
				v := sym.Int64("cell")
				g[i], rows[i] = append(g[i], v), append(rows[i], cellOf(v))
			}
		}
		share(g, rows)
		return g, rows
	case 4:
		g := make([][]bool, len(widths))
		for i, w := range widths {
			for j := 0; j < w; j++ {
				v := sym.Bool("cell")
				g[i], rows[i] = append(g[i], v), append(rows[i], cellOf(v))
			}
		}
		share(g, rows)
		return g, rows
	}
	g := make([][]stmt.Expression, len(widths))
	for i, w := range widths {
		for j := 0; j < w; j++ {
			v := sym.Int64("cell")
			c := cell{lk.Value(v), "?", []any_{v}}
			switch (i + 2*j) % 4 {
			case 1:
				c = cell{lk.Raw("r" + ref.Itoa(j)), "r" + ref.Itoa(j), nil}
			case 2:
				c = cell{subq(v).Statement(), `(SELECT "i" FROM "j" WHERE ("k" = ?))`, []any_{v}}
			case 3:
				c = cell{stmt.NewCall("f", lk.Value(v)), "f(?)", []any_{v}}
			}
			g[i] = append(g[i], c.given.(stmt.Expression))
			rows[i] = append(rows[i], c)
		}
	}
	share(g, rows)
	return g, rows
}

// share makes some of the rows the same slice as the first one.
func share[T any](g [][]T, rows [][]cell) {
	if len(g) < 2 {
		return
	}
	k := sym.Choose("shared rows", 4)
	for i := 1; i < len(g); i++ {
		if k == 1 || k == 2 && i == 1 || k == 3 && i == len(g)-1 {
			g[i], rows[i] = g[0], rows[0]
		}
	}
}

// columnArgs gives n columns to Columns in some form.
func columnArgs(n int) (args []any_, text string) {
	names := make([]string, n)
	for i := range names {
		names[i] = "c" + ref.Itoa(n-i) // not in alphabetical order
		if i > 0 {
			text += ", "
		}
		text += ref.Quote(names[i])
	}
	text = " (" + text + ")"
	switch sym.Choose("columns", 5) {
	case 4:
		text = ""
		for i := range names {
			c := names[i]
			if i < 3 {
				c = anyColumn(1)
			}
			if i > 0 {
				text += ", "
			}
			text += ref.Quote(c)
			args = append(args, c)
		}
		text = " (" + text + ")"
	case 0:
		for _, x := range names {
			args = append(args, x)
		}
	case 1:
		s := ""
		for i, x := range names {
			if i > 0 {
				s += ", "
			}
			s += x
		}
		args = []any_{s}
	case 2:
		args = []any_{names}
	case 3:
		cs := make([]stmt.Column, n)
		for i, x := range names {
			cs[i] = lk.Column(x)
		}
		args = []any_{cs}
	}
	return
}

// Several rows, of every slice type, any number of rows and (ragged) widths.
func C13_rows() {
	k := sym.Choose("type", nRowSlices)
	n := 1 + sym.Choose("rows", sym.Bound(3, 4))
	widths := make([]int, n)
	most := sym.Bound(3, 4)
	for i := range widths {
		widths[i] = 1 + sym.Choose("width", most)
	}
	cargs, ctext := columnArgs(widths[0])
	g, rows := rowSlice(k, widths)
	tail := ""
	b := func() builder.Builder { return lk.Insert("t").Columns(cargs...).Values(g) }
	if sym.Choose("tail", 2) == 1 {
		tail = ` ON CONFLICT DO NOTHING RETURNING "id"`
		b = func() builder.Builder {
			return lk.Insert("t").Columns(cargs...).Returning("id").Values(g).OnConflict(lk.DoNothing())
		}
	}
	checkRows(b, `INSERT INTO "t"`+ctext, rows, tail, rowSliceNames[k])
}

// Wide rows, of every slice type.
func C13_wide_rows() {
	k := sym.Choose("type", nRowSlices)
	w := []int{6, 8, 9, 17, 33, 65, 129}[sym.Choose("width", sym.Bound(5, 7))]
	widths := []int{w, w}
	switch sym.Choose("rows", 3) {
	case 1:
		widths = []int{w, w - 1, w + 1}
	case 2:
		widths = []int{w}
	}
	g, rows := rowSlice(k, widths)
	checkRows(func() builder.Builder { return lk.Insert("t").Values(g) }, `INSERT INTO "t"`, rows, "", "wide rows of "+rowSliceNames[k])
}

// A long slice given alone is one row, whatever its type.
func C13_long_slice_row() {
	n := longSizes[sym.Choose("size", sym.Bound(4, 6))]
	k := sym.Choose("type", nSlices)
	g, elems := MakeSlice("e", k, n)
	row := make([]cell, n)
	for i := range row {
		row[i] = cellOf(elems[i])
	}
	checkRows(func() builder.Builder { return lk.Insert("t").Values(g) }, `INSERT INTO "t"`, [][]cell{row}, "", "a long row given as "+sliceNames[k])
}

// Many rows.
func C13_many_rows() {
	k := sym.Choose("type", nRowSlices)
	widths := make([]int, []int{12, 33, 70, 129}[sym.Choose("rows", sym.Bound(2, 4))])
	for i := range widths {
		widths[i] = 2
	}
	cargs, ctext := columnArgs(2)
	g, rows := rowSlice(k, widths)
	checkRows(func() builder.Builder { return lk.Insert("t").Columns(cargs...).Values(g) }, `INSERT INTO "t"`+ctext, rows, "", "many rows of "+rowSliceNames[k])
}

// A single row of values of any kind.
func C13_row() {
	n := 1 + sym.Choose("width", sym.Bound(4, 6))
	at, kind := sym.Choose("at", n), sym.Choose("kind", nKinds)
	var vals []any_
	var row []cell
	for i := 0; i < n; i++ {
		c := cellOf(sym.Int64("cell"))
		if i == at {
			g, b := OpaqueValue("special", kind)
			c = cell{g, "?", []any_{b}}
		}
		vals = append(vals, c.given)
		row = append(row, c)
	}
	if n == 1 {
		switch vals[0].(type) {
		case []string, []int64: // a slice alone is a whole row
			return
		}
	}
	cargs, ctext := columnArgs(n)
	what := "one row with a " + kindNames[kind]
	if n > 1 && sym.Choose("slice", 2) == 1 {
		checkRows(func() builder.Builder { return lk.Insert("t").Columns(cargs...).Values(vals) }, `INSERT INTO "t"`+ctext, [][]cell{row}, "", what+" as slice")
		return
	}
	checkRows(func() builder.Builder { return lk.Insert("t").Columns(cargs...).Values(vals...) }, `INSERT INTO "t"`+ctext, [][]cell{row}, "", what)
}

// A slice given alone is one row, whatever its type.
func C13_slice_row() {
	n := 1 + sym.Choose("length", sym.Bound(4, 8))
	k := sym.Choose("type", nSlices)
	g, elems := MakeSlice("e", k, n)
	row := make([]cell, n)
	for i := range row {
		row[i] = cellOf(elems[i])
	}
	checkRows(func() builder.Builder { return lk.Insert("t").Values(g) }, `INSERT INTO "t"`, [][]cell{row}, "", "a row given as "+sliceNames[k])
}

// Special cells: NULL, raw, subquery, function call, anywhere in a row.
func C13_cells() {
	n := 1 + sym.Choose("width", sym.Bound(3, 4))
	var vals []any_
	var row []cell
	for i := 0; i < n; i++ {
		v := sym.Int64("cell")
		c := cellOf(v)
		switch sym.Choose("cell", 5) {
		case 1:
			c = cell{nil, "NULL", nil}
		case 2:
			c = cell{lk.Raw("r" + ref.Itoa(i)), "r" + ref.Itoa(i), nil}
		case 3:
			c = cell{subq(v), `(SELECT "i" FROM "j" WHERE ("k" = ?))`, []any_{v}}
		case 4:
			c = cell{stmt.NewCall("f", lk.Value(v)), "f(?)", []any_{v}}
		}
		vals = append(vals, c.given)
		row = append(row, c)
	}
	switch sym.Choose("form", 3) {
	case 0:
		checkRows(func() builder.Builder { return lk.Insert("t").Values(vals...) }, `INSERT INTO "t"`, [][]cell{row}, "", "cells given one by one")
	case 1:
		checkRows(func() builder.Builder { return lk.Insert("t").Values(vals) }, `INSERT INTO "t"`, [][]cell{row}, "", "cells given as a slice")
	case 2:
		checkRows(func() builder.Builder { return lk.Insert("t").Values([][]interface{}{vals, vals}) }, `INSERT INTO "t"`, [][]cell{row, row}, "", "cells given as rows")
	}
}

// With Set, the i-th value is the value of the i-th column.
func C13_set() {
	sym.MapOrder(0)
	v := []any_{sym.Int64("v"), sym.Int64("v"), sym.Int64("v")}
	names := []string{anyColumn(1), "m", "z"}
	sym.Assume(names[0][1] != 'z')
	var args []any_
	switch sym.Choose("form", 4) {
	case 0:
		args = []any_{lk.Map{names[0]: v[0], names[1]: v[1], names[2]: v[2]}}
	case 1:
		args = []any_{lk.Pair(names[2], v[2]), lk.Pair(names[0], v[0]), lk.Pair(names[1], v[1])}
	case 2:
		args = []any_{lk.Pair(names[1], v[1]), map[string]interface{}{names[2]: v[2], names[0]: v[0]}}
	case 3:
		args = []any_{lk.Map{lk.Column(names[1]): v[1], names[0]: v[0]}, lk.Pair(names[2], v[2])}
	}
	cols, vals := lastWrites([]write{{names[0], v[0]}, {names[1], v[1]}, {names[2], v[2]}})
	row := make([]cell, len(cols))
	head := ""
	for i := range cols {
		if i > 0 {
			head += ", "
		}
		head += ref.Quote(cols[i])
		row[i] = cellOf(vals[i])
	}
	checkRows(func() builder.Builder { return lk.Insert("t").Set(args...) }, `INSERT INTO "t" (`+head+")", [][]cell{row}, "", "Set")
}

// A slice of rows is the only argument: with others next to it, Values refuses rather than losing some.
func C13_rows_and_more() {
	row := lk.Value(1)
	rows := []any_{[][]int{{1, 2}}, [][]int64{{1, 2}, {3, 4}}, [][]string{{"a", "b"}}, [][]interface{}{{1, "a"}, {nil, true}}, [][]stmt.Expression{{row, row}}, [][]float64{{1, 2}}, [][]bool{{true, false}}}
	k := sym.Choose("type", len(rows))
	g := rows[k]
	others := append([]any_{int64(5), nil, "a", []int{1}, lk.Raw("r"), subq(1)}, rows...)
	other := others[sym.Choose("other", len(others))]
	args := [][]any_{{g, other}, {other, g}, {other, g, other}}[sym.Choose("order", 3)]
	checkRefused(func() builder.Builder { return lk.Insert("t").Columns("a", "b").Values(args...) }, "C13 rows with other values around them: type "+ref.Itoa(k))
}

// Columns whose names have several parts, the first of which may be the table's name.
func C13_qualified() {
	part := func(n int) string {
		s := sym.Str("name", n)
		for i := 0; i < n; i++ {
			sym.Assume(s[i] == '.' || s[i] >= 'a' && s[i] <= 'z')
		}
		return s
	}
	t := part(1 + sym.Choose("table", 2))
	c, d := part(3), part(sym.Bound(2, 3))
	v, w := sym.Int64("v"), sym.Int64("w")
	row := []cell{cellOf(v), cellOf(w)}
	names := ref.Quote(c) + ", " + ref.Quote(d)
	head, tail := `INSERT INTO `+ref.Quote(t)+` (`+names+`)`, ""
	var b func() builder.Builder
	switch sym.Choose("form", 4) {
	case 0:
		b = func() builder.Builder { return lk.Insert(t).Columns(c, d).Values(v, w) }
	case 1:
		b = func() builder.Builder {
			return lk.Insert(lk.Table(t)).Columns([]stmt.Column{lk.Column(c), lk.Column(d)}).Values([]int64{v, w})
		}
	case 2:
		tail = ` ON CONFLICT (` + names + `) DO NOTHING RETURNING ` + names
		b = func() builder.Builder {
			return lk.Insert(t).Columns(c+","+d).Values([]any_{v, w}).OnConflict(c, lk.Column(d), lk.DoNothing()).Returning(c, d)
		}
	case 3:
		if c == d {
			return // C12
		}
		if c > d {
			c, d, row[0], row[1] = d, c, row[1], row[0]
		}
		head = `INSERT INTO ` + ref.Quote(t) + ` (` + ref.Quote(c) + ", " + ref.Quote(d) + `)`
		x, y := row[0].given, row[1].given
		b = func() builder.Builder { return lk.Insert(t).Set(lk.Map{d: y}, lk.Pair(lk.Column(c), x)) }
	}
	checkRows(b, head, [][]cell{row}, tail, "columns of several parts")
}
