X='stmt/expression.go'; B='builder/builder.go'
BUGS=[
dict(id='c01-default',prop='C01',edits=[(X,'''	} else {
		ctx.Bind(value.Value)
	}''','''	} else if keyword, ok := value.Value.(string); ok && keyword == "DEFAULT" {
		// Let the database use the default value of the column.
		ctx.Write(keyword)
	} else {
		ctx.Bind(value.Value)
	}''')],
needs='a bound string whose content is exactly DEFAULT', breaks='the text of the statement depends on the content of a bound value, which is written as SQL instead of being bound',
demo='''
	a, args := lk.Insert("t").Set(lk.Map{"a": "x"}).Query()
	b, argb := lk.Insert("t").Set(lk.Map{"a": "DEFAULT"}).Query()
	if a != b || len(args) != len(argb) {
		t.Fatalf("%q %q", a, b)
	}
'''),
dict(id='c01-inline-ints',prop='C01',edits=[(X,'''	case []int64:
		for _, v := range values {
			array.Append(v)
		}''','''	case []int64:
		for _, v := range values {
			if len(values) > 16 {
				// Integers are harmless: do not spend that many placeholders on them.
				array.Append(NewRaw(strconv.FormatInt(v, 10)))
				continue
			}
			array.Append(v)
		}'''),(X,'''	"fmt"
	"time"''','''	"fmt"
	"strconv"
	"time"''')],
needs='an IN list given as a []int64 of more than 16 elements', breaks='values are written in the text instead of being bound',
demo='''
	list := make([]int64, 20)
	a, _ := lk.Select("a").From("t").Where(lk.Condition("id").In(list)).Query()
	list[19] = 7
	b, _ := lk.Select("a").From("t").Where(lk.Condition("id").In(list)).Query()
	if a != b {
		t.Fatalf("%q %q", a, b)
	}
'''),
dict(id='c02-dedupe',prop='C02',edits=[('types/context.go','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
	ctx.values[name] = value
''','''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)
	if text, ok := value.(string); ok {
		// Reuse the argument that already holds the same text.
		for other, previous := range ctx.values {
			if previous == interface{}(text) {
				name = other
			}
		}
	}
	ctx.values[name] = value
''')],
needs='the same string bound twice in a named query', breaks='a named placeholder appears twice and the map misses arguments; the named and positional forms no longer correspond',
demo='''
	q, args := lk.Select("a").From("t").Where(lk.Condition("a").Equal("x")).And(lk.Condition("b").Equal("x")).NamedQuery()
	if len(args) != 2 || strings.Count(q, ":arg_1") != 1 {
		t.Fatalf("%q %v", q, args)
	}
'''),
dict(id='c02-nil-valuer',prop='C02',edits=[('types/context.go','''	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))''','''	ctx.values = append(ctx.values, value)
	if literal := format.Value(value); literal == "NULL" {
		ctx.Write(literal)
		return
	}
	ctx.Write(fmt.Sprintf("$%d", idx))''')],
needs='a nil pointer implementing driver.Valuer (or a valuer yielding nil) among other values', breaks='the text has fewer placeholders than there are arguments and the numbering has a gap',
top='''type null struct{}

func (*null) Value() (driver.Value, error) { return nil, nil }
''',
demo='''
	q, args := lk.Select("a").From("t").Where(lk.Condition("a").Equal((*null)(nil))).And(lk.Condition("b").Equal(2)).Query()
	if strings.Count(q, "$") != len(args) {
		t.Fatalf("%q %v", q, args)
	}
'''),
dict(id='c02-ten',prop='C02',edits=[('types/context.go','''	name := fmt.Sprintf("arg_%d", idx)''','''	name := "arg_" + string(rune('0'+idx%10))''')],
needs='ten values or more in a named statement', breaks='argument names are reused, earlier values are overwritten',
demo='''
	list := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	q, args := lk.Select("a").From("t").Where(lk.Condition("a").In(list)).NamedQuery()
	if len(args) != len(list) {
		t.Fatalf("%q %v", q, args)
	}
'''),
dict(id='c03-cast',prop='C03',edits=[('types/context.go','''	ctx.Write(":" + name)
}''','''	ctx.RawContext.Write(":" + name)
}

// Write appends given subquery in context's buffer.
func (ctx *NamedContext) Write(query string) {
	// A colon starts a named argument: protect the ones of a type cast.
	ctx.RawContext.Write(strings.ReplaceAll(query, "::", `\\\\:\\\\:`))
}'''.replace('\\\\\\\\','\\\\').replace('\\\\','\\'))],
needs='a raw fragment with a type cast', breaks='the named text is no longer the positional text with its placeholders renamed',
demo='''
	b := lk.Select("a").From("t").Where(lk.Raw("a::date = b"))
	q, _ := b.Query()
	n, _ := b.NamedQuery()
	if q != n || q != b.String() {
		t.Fatalf("%q %q", q, n)
	}
'''),
dict(id='c03-bytes',prop='C03',edits=[('types/context.go','''	ctx.values[name] = value
''','''	if content, ok := value.([]byte); ok {
		// The map must not change with the slice of the caller.
		value = string(content)
	}
	ctx.values[name] = value
''')],
needs='a byte slice bound in a named query', breaks='NamedQuery and Query return different argument values',
demo='''
	b := lk.Select("a").From("t").Where(lk.Condition("a").Equal([]byte("x")))
	_, args := b.Query()
	_, named := b.NamedQuery()
	if !reflect.DeepEqual(args[0], named["arg_1"]) {
		t.Fatalf("%T %T", args[0], named["arg_1"])
	}
'''),
dict(id='c04-quoted',prop='C04',edits=[('stmt/table.go','''	ctx.Write(quote(table.Name))
	if''','''	if strings.HasPrefix(table.Name, `"`) && strings.HasSuffix(table.Name, `"`) {
		// The name is already quoted.
		ctx.Write(table.Name)
	} else {
		ctx.Write(quote(table.Name))
	}
	if'''),('stmt/table.go','''import (
''','''import (
	"strings"

''')],
needs='a table name that starts and ends with a double quote', breaks='the name can close its own quoting and add SQL',
demo='''
	q := lk.Delete(`"a" USING "b"`).String()
	if !strings.Contains(q, `"""a"" USING ""b"""`) {
		t.Fatal(q)
	}
'''),
dict(id='c04-star',prop='C04',edits=[('stmt/column.go','''	ctx.Write(quote(column.Name))
''','''	if table := strings.TrimSuffix(column.Name, ".*"); table != column.Name {
		ctx.Write(quote(table))
		ctx.Write(".*")
	} else {
		ctx.Write(quote(column.Name))
	}
'''),('stmt/column.go','''import (
''','''import (
	"strings"

''')],
needs='a column whose last dotted part is a star', breaks='the part is not rendered as a delimited identifier but as SQL',
demo='''
	q := lk.Select("a.*").From("t").String()
	if !strings.Contains(q, `"a"."*"`) {
		t.Fatal(q)
	}
'''),
dict(id='c05-trim',prop='C05',edits=[(B,'''				list[i] = array[i]
''','''				array[i] = strings.TrimSpace(array[i])
				list[i] = array[i]
''')],
needs='a string slice with blanks around a name, used again by the caller', breaks='the slice given by the caller is modified',
demo='''
	names := []string{"a", " b "}
	lk.Insert("t").Columns(names)
	if names[1] != " b " {
		t.Fatalf("%q", names)
	}
'''),
dict(id='c05-reuse',prop='C05',edits=[('builder/select.go','''	b.query.Expressions = ToSelectExpressions(args)
''','''	b.query.Expressions = append(b.query.Expressions[:0], ToSelectExpressions(args)...)
''')],
needs='calling Columns again on a derived select', breaks='the columns of the original builder are overwritten',
demo='''
	a := lk.Select("a").From("t")
	before := a.String()
	b := a.Columns("b")
	if a.String() != before || b.String() == before {
		t.Fatal(a.String())
	}
'''),
dict(id='c06-alias',prop='C06',edits=[('stmt/conflict.go','''		target.Columns[i].Write(ctx)
''','''		// An alias is not allowed here.
		target.Columns[i].Alias = ""
		target.Columns[i].Write(ctx)
''')],
needs='a conflict target, and a second rendering of the same statement at the same time or an inspection of it', breaks='rendering writes to memory shared with every copy of the builder',
demo='''
	b := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict(lk.Column("a").As("x"), lk.DoNothing())
	query := b.Statement().(stmt.Insert)
	_ = b.String()
	if query.OnConflict.Target.Columns[0].Alias != "x" {
		t.Fatal("modified by a rendering")
	}
'''),
dict(id='c06-scratch',prop='C06',edits=[('format/format.go','''	buffer := &bytes.Buffer{}
''','''	buffer := scratch
	buffer.Reset()
'''),('format/format.go','''// String formats the given string.
''','''// scratch avoids an allocation per string.
var scratch = &bytes.Buffer{}

// String formats the given string.
''')],
needs='two renderings with string values at the same time', breaks='concurrent renderings share a buffer and mix their output',
demo='''
	var wg sync.WaitGroup
	var bad sync.Map
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad.Store(i, r)
				}
			}()
			text := strings.Repeat(string(rune('a'+i)), 200)
			b := lk.Select("a").From("t").Where(lk.Condition("a").Equal(text))
			want := "SELECT \\"a\\" FROM \\"t\\" WHERE (\\"a\\" = '" + text + "')"
			for n := 0; n < 20000; n++ {
				if b.String() != want {
					bad.Store(i, "mixed")
					return
				}
			}
		}(i)
	}
	wg.Wait()
	bad.Range(func(k, v interface{}) bool {
		t.Fatal(k, v)
		return false
	})
'''),
dict(id='c07-values-first',prop='C07',edits=[('builder/insert.go','''	if len(b.query.Columns) != 0 {
		panic("loukoum: insert builder has columns clause already defined")
	}

	b.query.Columns = ToColumns(columns)''','''	if len(b.query.Columns) != 0 || !b.query.Values.IsEmpty() {
		panic("loukoum: insert builder has columns clause already defined")
	}

	b.query.Columns = ToColumns(columns)''')],
needs='Values called before Columns', breaks='the call order of clauses matters',
demo='''
	if panics(func() { lk.Insert("t").Values(1).Columns("a") }) {
		t.Fatal("refused")
	}
'''),
dict(id='c07-distinct',prop='C07',edits=[('builder/select.go','''	b.query.Distinct = true
''','''	b.query.Distinct = b.query.DistinctOn.IsEmpty()
''')],
needs='both DISTINCT and DISTINCT ON, in this order or the other', breaks='the text depends on the call order',
demo='''
	a := lk.Select("a").From("t").Distinct().DistinctOn("b").String()
	b := lk.Select("a").From("t").DistinctOn("b").Distinct().String()
	if a != b {
		t.Fatal(a, b)
	}
'''),
dict(id='c08-limit',prop='C08',edits=[('builder/select.go','''	if !b.query.Limit.IsEmpty() {
''','''	if !b.query.Limit.IsEmpty() && b.query.Limit != ToLimit(value) {
''')],
needs='the same limit given twice', breaks='a second definition of LIMIT is silently accepted',
demo='''
	if !panics(func() { lk.Select("a").From("t").Limit(3).Limit("3") }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c08-using',prop='C08',edits=[('builder/delete.go','''	if !b.query.Using.IsEmpty() {
''','''	if len(b.query.Using.Tables) > 1 {
''')],
needs='USING given twice, first with one table', breaks='the first USING is silently replaced',
demo='''
	if !panics(func() { lk.Delete("t").Using("a").Using("b") }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c09-repeat',prop='C09',edits=[('stmt/where.go','''	left := where.Condition
	operator := NewAndOperator()
''','''	left := where.Condition
	if raw, ok := right.(Raw); ok && left == Expression(raw) {
		return where
	}
	operator := NewAndOperator()
''')],
needs='the same raw condition given twice in a row', breaks='a condition given to And is dropped',
demo='''
	q := lk.Delete("t").Where(lk.Raw("random() < 0.5")).And(lk.Raw("random() < 0.5")).String()
	if strings.Count(q, "random()") != 2 {
		t.Fatal(q)
	}
'''),
dict(id='c09-false',prop='C09',edits=[('stmt/where.go','''	left := where.Condition
	operator := NewOrOperator()
''','''	left := where.Condition
	if raw, ok := right.(Raw); ok && strings.EqualFold(raw.Value, "false") {
		// Nothing to add to the condition.
		return where
	}
	operator := NewOrOperator()
'''),('stmt/where.go','''import (
''','''import (
	"strings"

''')],
needs='a raw FALSE condition given to Or', breaks='a condition given to Or is dropped',
demo='''
	q := lk.Delete("t").Where(lk.Condition("a").Equal(1)).Or(lk.Raw("false")).String()
	if !strings.Contains(q, "OR false") {
		t.Fatal(q)
	}
'''),
dict(id='c10-on-parens',prop='C10',edits=[('stmt/on.go','''	ctx.Write("(")
	expression.Left.Write(ctx)
	ctx.Write(" ")
	expression.Operator.Write(ctx)
	ctx.Write(" ")
	expression.Right.Write(ctx)
	ctx.Write(")")''','''	if left, ok := expression.Left.(InfixOnExpression); ok && left.Operator == expression.Operator {
		// The same operator: the inner parenthesis is not required.
		expression.Left, expression.Right = left.Left, NewInfixOnExpression(left.Right, left.Operator, expression.Right)
	}

	ctx.Write("(")
	expression.Left.Write(ctx)
	ctx.Write(" ")
	expression.Operator.Write(ctx)
	ctx.Write(" ")
	expression.Right.Write(ctx)
	ctx.Write(")")''')],
needs='a join condition of three operands combined from the left with one operator', breaks='the tree of a join condition is restructured',
demo='''
	q := lk.Select("a").From("t").Join(lk.Table("u"), lk.AndOn(lk.AndOn(lk.On("a", "b"), lk.On("c", "d")), lk.On("e", "f"))).String()
	if !strings.Contains(q, `(("a" = "b" AND "c" = "d") AND "e" = "f")`) {
		t.Fatal(q)
	}
'''),
dict(id='c10-rotate',prop='C10',edits=[('stmt/infix.go','''	operator := NewAndOperator()
	return NewInfixExpression(expression, operator, NewWrapper(value))''','''	operator := NewAndOperator()
	if NewOrOperator() == expression.Operator {
		// AND has precedence over OR.
		expression.Right = NewInfixExpression(expression.Right, operator, NewWrapper(value))
		return expression
	}
	return NewInfixExpression(expression, operator, NewWrapper(value))''')],
needs='And called on an OR expression', breaks='(a OR b) AND c becomes a OR (b AND c)',
demo='''
	a, b, c := lk.Condition("a").Equal(1), lk.Condition("b").Equal(2), lk.Condition("c").Equal(3)
	q := lk.Select("x").From("t").Where(a.Or(b).And(c)).String()
	if !strings.Contains(q, `((("a" = 1) OR ("b" = 2)) AND ("c" = 3))`) {
		t.Fatal(q)
	}
'''),
dict(id='c11-between',prop='C11',edits=[(X,'''	return NewBetween(identifier, NewExpression(from), NewExpression(to))''','''	if low, ok := from.(int); ok {
		if high, ok := to.(int); ok && high < low {
			from, to = to, from
		}
	}
	return NewBetween(identifier, NewExpression(from), NewExpression(to))''')],
needs='Between with int bounds in decreasing order', breaks='the bounds are exchanged',
demo='''
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").Between(3, 1)).Query()
	if args[0] != 3 || args[1] != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c11-null',prop='C11',edits=[(X,'''func (identifier Identifier) NotEqual(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.NotEqual)
''','''func (identifier Identifier) NotEqual(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.NotEqual)
	if value == nil {
		operator = NewComparisonOperator(types.IsNot)
	}
''')],
needs='NotEqual with nil', breaks='another operator than the documented one is rendered',
demo='''
	q := lk.Select("a").From("t").Where(lk.Condition("a").NotEqual(nil)).String()
	if !strings.Contains(q, `("a" != NULL)`) {
		t.Fatal(q)
	}
'''),
dict(id='c12-nil',prop='C12',edits=[('stmt/set.go','''	pairs.Map[column] = expression
}''','''	if value, null := expression.(Value); ok && null && value.Value == nil {
		return
	}
	pairs.Map[column] = expression
}''')],
needs='a column assigned a value and later NULL', breaks='the last write does not win',
demo='''
	q := lk.Update("t").Set(lk.Pair("a", 1)).Set(lk.Pair("a", nil)).String()
	if !strings.Contains(q, `"a" = NULL`) {
		t.Fatal(q)
	}
'''),
dict(id='c13-ragged',prop='C13',edits=[(X,'''	case [][]bool:
		for i := range values {
			raws := make([]interface{}, len(values[i]))
''','''	case [][]bool:
		for i := range values {
			raws := make([]interface{}, len(values[0]))
''')],
needs='rows of booleans of different lengths', breaks='a row gets a value that was not given (or the call crashes)',
demo='''
	q := lk.Insert("t").Values([][]bool{{true, false}, {true}}).String()
	if !strings.HasSuffix(q, "VALUES (true, false), (true)") {
		t.Fatal(q)
	}
'''),
dict(id='c13-unique',prop='C13',edits=[('builder/insert.go','''	b.query.Columns = ToColumns(columns)
''','''	seen := map[stmt.Column]bool{}
	for _, column := range ToColumns(columns) {
		if !seen[column] {
			b.query.Columns = append(b.query.Columns, column)
		}
		seen[column] = true
	}
''')],
needs='an insert that names a column twice', breaks='the columns listed no longer correspond to the values of a row',
demo='''
	q := lk.Insert("t").Columns("a", "b", "a").Values(1, 2, 3).String()
	if !strings.Contains(q, `("a", "b", "a")`) {
		t.Fatal(q)
	}
'''),
dict(id='c14-key',prop='C14',edits=[('builder/insert.go','''				panic("loukoum: on conflict update clause requires at least one target")
			}
''','''				panic("loukoum: on conflict update clause requires at least one target")
			}
			// The columns of the target already have the inserted value.
			set := stmt.NewSet()
			columns, expressions := value.Set.Pairs.Values()
			for y := range columns {
				if columns[y] != b.query.OnConflict.Target.Columns[0] {
					set.Pairs.Add(columns[y], expressions[y])
				}
			}
			if !set.IsEmpty() {
				value.Set = set
			}
''')],
needs='an upsert that also assigns the first column of its target', breaks='an assignment of DO UPDATE is dropped',
demo='''
	q := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("a", lk.DoUpdate(lk.Pair("a", 2), lk.Pair("b", 3))).String()
	if !strings.Contains(q, `"a" = 2`) {
		t.Fatal(q)
	}
'''),
dict(id='c15-base',prop='C15',edits=[(B,'''strconv.ParseInt(cast, 10, 64)''','''strconv.ParseInt(cast, 0, 64)''')],
needs='a limit given as a string with a leading zero or an underscore', breaks='the limit rendered is another number, or a malformed one is accepted',
demo='''
	q := lk.Select("a").From("t").Limit("010").String()
	if !strings.HasSuffix(q, "LIMIT 10") {
		t.Fatal(q)
	}
'''),
dict(id='c15-uint32',prop='C15',edits=[(B,'''	case uint32:
		return int64(cast), true''','''	case uint32:
		return int64(int32(cast)), true''')],
needs='a uint32 limit above 2147483647', breaks='a valid limit is refused',
demo='''
	if panics(func() { lk.Select("a").From("t").Limit(uint32(3000000000)) }) {
		t.Fatal("refused")
	}
'''),
dict(id='c16-precedence',prop='C16',edits=[('parser/join.go','''						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.And), stmt.NewOnClause(left, right)) //nolint:lll
''','''						and := stmt.NewLogicalOperator(types.And)
						previous, ok := join.Condition.(stmt.InfixExpression)
						_, nested := previous.Left.(stmt.InfixExpression)
						if ok && nested && stmt.NewOrOperator() == previous.Operator {
							previous.Right = stmt.NewInfixExpression(previous.Right, and, stmt.NewOnClause(left, right))
							join.Condition = previous
						} else {
							join.Condition = stmt.NewInfixExpression(join.Condition, and, stmt.NewOnClause(left, right))
						}
''')],
needs='a join string with four conditions: an AND after an OR after another operator', breaks='the conditions are not combined from left to right',
demo='''
	q := lk.Select("a").From("t").Join("u ON x = y AND a = b OR c = d AND e = f").String()
	if !strings.Contains(q, `((("x" = "y" AND "a" = "b") OR "c" = "d") AND "e" = "f")`) {
		t.Fatal(q)
	}
'''),
dict(id='c16-cr',prop='C16',edits=[('lexer/lexer.go',''' || e == '\\n' || e == '\\r'
}''',''' || e == '\\n'
}''')],
needs='a join string with a carriage return', breaks='a well-formed join string is rejected or loses its tail',
demo='''
	join, err := parser.ParseJoin("u ON a = b\\r\\n AND c = d")
	if err != nil || join.Condition == nil {
		t.Fatal(join, err)
	}
	if _, ok := join.Condition.(stmt.InfixExpression); !ok {
		t.Fatal(join)
	}
'''),
dict(id='c17-or-tail',prop='C17',edits=[('parser/join.go','''						if e.Type != token.Or || !it.Is(token.Literal) {
							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
							return stmt.Join{}, err
						}
''','''						if e.Type != token.Or || !it.Is(token.Literal) {
							return join, nil
						}
''')],
needs='a join string whose OR is not followed by a name', breaks='the parser returns a join that lost a condition',
demo='''
	_, err := parser.ParseJoin("u ON a = b OR (c = d)")
	if err == nil {
		t.Fatal("accepted")
	}
'''),
dict(id='c18-case',prop='C18',edits=[('token/token.go','''	n := strings.ToUpper(e)
''','''	n := e
	if strings.ToLower(e) == e {
		n = strings.ToUpper(e)
	}
''')],
needs='a keyword in mixed case', breaks='the keyword is classified as a literal',
demo='''
	if token.Lookup("Join") != token.Join {
		t.Fatal(token.Lookup("Join"))
	}
'''),
dict(id='c18-long',prop='C18',edits=[('lexer/lexer.go','''		buffer = append(buffer, l.current())
''','''		if len(buffer) < 63 {
			// The database ignores the remaining characters.
			buffer = append(buffer, l.current())
		}
''')],
needs='a word of 64 characters or more', breaks='characters of the input are lost',
demo='''
	word := strings.Repeat("a", 70)
	l := lexer.New(strings.NewReader(word))
	if got := l.Next(); got.Value != word {
		t.Fatal(got)
	}
'''),
dict(id='c19-cte',prop='C19',edits=[('stmt/with.go','''		Subquery: NewExpression(value),
	}
}''','''		Subquery: newSubquery(value),
	}
}

func newSubquery(value interface{}) Expression {
	if query, ok := value.(Expression); ok {
		return query
	}
	return NewExpression(value)
}''')],
needs='a CTE made from the statement of a builder that has a comment', breaks='the comment hides the rest of the outer statement',
demo='''
	sub := lk.Select("a").From("t").Comment("x").Statement()
	q := lk.Select("a").From("c").With(lk.With("c", sub)).String()
	if strings.Contains(q, "--") {
		t.Fatal(q)
	}
'''),
dict(id='c19-spaces',prop='C19',edits=[('stmt/comment.go','''	return Comment{
		Comment: comment,
	}''','''	return Comment{
		Comment: strings.TrimRight(comment, " ;"),
	}''')],
needs='a comment that ends with a semicolon', breaks='the comment is altered',
demo='''
	q := lk.Select("a").From("t").Comment("x;").String()
	if !strings.HasSuffix(q, "; -- x;") {
		t.Fatal(q)
	}
'''),
dict(id='c20-uint16',prop='C20',edits=[(X,'''	case []uint16:
		for _, v := range values {
			array.Append(v)''','''	case []uint16:
		for _, v := range values {
			array.Append(int16(v))''')],
needs='an IN list of uint16 above 32767', breaks='an element has another type and value',
demo='''
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").In([]uint16{1, 40000})).Query()
	if args[1] != uint16(40000) {
		t.Fatal(args)
	}
'''),
dict(id='c20-nested',prop='C20',edits=[(X,'''	case []interface{}:
		for _, v := range values {
			array.Append(v)''','''	case []interface{}:
		if len(values) == 1 {
			return toArray(values[0])
		}
		for _, v := range values {
			array.Append(v)''')],
needs='an IN list given as an []interface{} with a single nil or slice', breaks='the list has no entry, or one per element of the slice',
demo='''
	q := lk.Select("a").From("t").Where(lk.Condition("a").In([]interface{}{nil})).String()
	if !strings.Contains(q, "IN (NULL)") {
		t.Fatal(q)
	}
'''),
dict(id='c21-nul',prop='C21',edits=[('format/format.go','''		case '\\n':
			writeString(buffer, `\\n`)
''','''		case 0:
			// The database does not accept this character.
		case '\\n':
			writeString(buffer, `\\n`)
''')],
needs='a string with a NUL character', breaks='the literal denotes another string',
demo='''
	if format.String("a\\x00b") != "'a\\x00b'" {
		t.Fatalf("%q", format.String("a\\x00b"))
	}
'''),
dict(id='c21-uint',prop='C21',edits=[('format/format.go','''	case uint:
		return Uint(uint64(value))''','''	case uint:
		return Int(int64(value))''')],
needs='a uint above the largest int64', breaks='the literal is negative',
demo='''
	if s := format.Value(uint(math.MaxUint64)); s != "18446744073709551615" {
		t.Fatal(s)
	}
'''),
dict(id='c22-micro',prop='C22',edits=[(X,'''	case time.Time:
		return NewValue(value)
''','''	case time.Time:
		return NewValue(value.Truncate(time.Microsecond))
''')],
needs='a time with nanoseconds', breaks='the argument is not the time given',
demo='''
	at := time.Date(2020, 1, 2, 3, 4, 5, 123456789, time.UTC)
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").Equal(at)).Query()
	if !args[0].(time.Time).Equal(at) {
		t.Fatal(args)
	}
'''),
dict(id='c22-order',prop='C22',edits=[(X,'''	case Int64Encoder:
		return NewValue(value.Int64())
	case BoolEncoder:
		return NewValue(value.Bool())
''','''	case BoolEncoder:
		return NewValue(value.Bool())
	case Int64Encoder:
		return NewValue(value.Int64())
''')],
needs='an object with both an integer and a boolean encoding', breaks='another encoding is bound',
top='''type both struct{}

func (both) Int64() int64 { return 4 }
func (both) Bool() bool   { return true }
''',
demo='''
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").Equal(both{})).Query()
	if args[0] != int64(4) {
		t.Fatal(args)
	}
'''),
dict(id='c22-empty',prop='C22',edits=[(X,'''	case time.Time:
		return NewValue(value)
''','''	case time.Time:
		if value.IsZero() {
			return NewValue(nil)
		}
		return NewValue(value)
''')],
needs='a zero time', breaks='a value is replaced by NULL',
demo='''
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").Equal(time.Time{})).Query()
	if len(args) != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c23-order',prop='C23',edits=[('stmt/subquery.go','''func NewExists(value interface{}) Exists {
	return Exists{
		Subquery: NewExpression(value),
	}
}''','''func NewExists(value interface{}) Exists {
	subquery := NewExpression(value)
	if query, ok := subquery.(Select); ok && query.Limit.IsEmpty() && query.Offset.IsEmpty() {
		// The order of the rows has no effect on their existence.
		query.OrderBy = OrderBy{}
		subquery = query
	}
	return Exists{
		Subquery: subquery,
	}
}''')],
needs='an EXISTS over an ordered select without limit', breaks='the text of the subquery is not what it renders on its own',
demo='''
	sub := lk.Select("a").From("t").OrderBy(lk.Order("f(a)"))
	q := lk.Select("a").From("t").Where(lk.Exists(sub)).String()
	if !strings.Contains(q, sub.String()) {
		t.Fatal(q)
	}
'''),
dict(id='c24-unique',prop='C24',edits=[(B,'''	tables := make([]stmt.Table, 0, len(values))

	for i := range values {
		tables = append(tables, ToTable(values[i]))
	}
''','''	tables := make([]stmt.Table, 0, len(values))

	for i := range values {
		table := ToTable(values[i])
		if len(tables) == 0 || tables[len(tables)-1] != table {
			tables = append(tables, table)
		}
	}
''')],
needs='the same table twice in a row in USING', breaks='an element of the list is lost',
demo='''
	q := lk.Delete("t").Using("a", "a").String()
	if strings.Count(q, `"a"`) != 2 {
		t.Fatal(q)
	}
'''),
dict(id='c24-split',prop='C24',edits=[(B,'''			columns = append(columns, value)
		case string:
			array := strings.Split(value, ",")
''','''			columns = append(columns, value)
		case string:
			array := strings.SplitN(value, ",", 16)
''')],
needs='a comma-separated string of more than 16 columns', breaks='several columns are merged into one name',
demo='''
	q := lk.Select(strings.Repeat("a,", 19) + "b").From("t").String()
	if strings.Count(q, ",") != 19 || strings.Contains(q, `,a`) {
		t.Fatal(q)
	}
'''),
dict(id='c25-upsert',prop='C25',edits=[(B,'''func IsUpdateBuilder(builder Builder) bool {
''','''func IsUpdateBuilder(builder Builder) bool { // nolint: gocyclo
	if insert, ok := builder.Statement().(stmt.Insert); ok {
		// An upsert is also an update.
		if _, ok := insert.OnConflict.Action.(stmt.ConflictUpdateAction); ok {
			return true
		}
	}
''')],
needs='an insert with an ON CONFLICT update', breaks='two predicates are true for one builder',
demo='''
	b := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("a", lk.DoUpdate(lk.Pair("a", 2)))
	if builder.IsUpdateBuilder(b) {
		t.Fatal("an insert is an update")
	}
'''),
dict(id='c26-comma',prop='C26',edits=[(B,'''			columns = append(columns, value)
		case string:
			array := strings.Split(value, ",")
''','''			columns = append(columns, value)
		case string:
			array := strings.Split(strings.TrimSuffix(value, ","), ",")
''')],
needs='a comma-separated list that ends with a comma', breaks='an undefined column is accepted',
demo='''
	if !panics(func() { lk.Select("a,").From("t") }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c26-alias',prop='C26',edits=[('stmt/table.go','''	return table.Name == ""
''','''	return table == Table{}
''')],
needs='a table with an alias or ONLY but no name', breaks='an empty name is rendered',
demo='''
	if !panics(func() { _ = lk.Insert(lk.Table("").As("x")).Values(1).String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c27-order',prop='C27',edits=[('stmt/order.go','''	ctx.Write(" ")
	ctx.Write(order.Type.String())
''','''	if strings.HasSuffix(order.Expression, " ASC") || strings.HasSuffix(order.Expression, " DESC") {
		return
	}
	ctx.Write(" ")
	ctx.Write(order.Type.String())
'''),('stmt/order.go','''import (
''','''import (
	"strings"

''')],
needs='an ORDER BY expression that ends like a direction', breaks='the direction given is not rendered',
demo='''
	q := lk.Select("a").From("t").OrderBy(lk.Order("a DESC")).String()
	if !strings.HasSuffix(q, "a DESC ASC") {
		t.Fatal(q)
	}
'''),
dict(id='c27-distinct-star',prop='C27',edits=[('stmt/aggregate.go','''	if count.IsDistinct {
''','''	if count.IsDistinct && count.Value != NewRaw("*") {
''')],
needs='a distinct count of star', breaks='the DISTINCT modifier is dropped',
demo='''
	q := lk.Select(lk.Count("*").Distinct(true)).From("t").String()
	if !strings.Contains(q, "COUNT(DISTINCT *)") {
		t.Fatal(q)
	}
'''),
]
