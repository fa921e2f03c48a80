X='stmt/expression.go'; B='builder/builder.go'; S='builder/select.go'
BUGS=[
dict(id='c01-like',prop='C01',edits=[(X,'''func (identifier Identifier) ILike(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.ILike)
''','''func (identifier Identifier) ILike(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.ILike)
	if pattern, ok := value.(string); ok && strings.ToLower(pattern) == strings.ToUpper(pattern) {
		// There is nothing to fold: an index can be used.
		operator = NewComparisonOperator(types.Like)
	}
'''),(X,'''	"fmt"
	"time"''','''	"fmt"
	"strings"
	"time"''')],
needs='an ILike pattern without letters', breaks='the text depends on the content of the pattern',
demo='''
	a, _ := lk.Select("a").From("t").Where(lk.Condition("id").ILike("abc%")).Query()
	b, _ := lk.Select("a").From("t").Where(lk.Condition("id").ILike("123%")).Query()
	if a != b {
		t.Fatalf("%q %q", a, b)
	}
'''),
dict(id='c01-nan',prop='C01',edits=[(X,'''	if value.Value == nil {
		ctx.Write("NULL")
	} else {''','''	if value.Value == nil {
		ctx.Write("NULL")
	} else if number, ok := value.Value.(float64); ok && number != number {
		ctx.Write("'NaN'::float8")
	} else {''')],
needs='a float that is not a number', breaks='the value is written in the text',
demo='''
	_, args := lk.Insert("t").Set(lk.Pair("a", math.NaN())).Query()
	if len(args) != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c02-hundred',prop='C02',edits=[('types/context.go','''	ctx.Write(fmt.Sprintf("$%d", idx))
''','''	if idx < 10 {
		ctx.Write("$" + string(rune('0'+idx)))
		return
	}
	ctx.Write("$" + string(rune('0'+idx/10%10)) + string(rune('0'+idx%10)))
'''),],
needs='a hundred values or more', breaks='the placeholders start again from 0',
demo='''
	list := make([]int, 101)
	q, _ := lk.Select("a").From("t").Where(lk.Condition("id").In(list)).Query()
	if !strings.Contains(q, "$101") {
		t.Fatal(q)
	}
''',),
dict(id='c02-returned',prop='C02',edits=[('types/context.go','''	ctx.values = append(ctx.values, value)
	ctx''','''	if idx > 1 && idx == cap(ctx.values)+1 {
		// Grow by half.
		values := make([]interface{}, len(ctx.values), cap(ctx.values)+(cap(ctx.values)+1)/2)
		copy(values, ctx.values[:len(ctx.values)-len(ctx.values)/16])
		ctx.values = values
	}
	ctx.values = append(ctx.values, value)
	ctx''')],
needs='more than 16 values', breaks='an argument is lost when the list grows',
demo='''
	list := make([]int, 40)
	_, args := lk.Select("a").From("t").Where(lk.Condition("id").In(list)).Query()
	for i := range args {
		if args[i] != 0 {
			t.Fatal(args)
		}
	}
'''),
dict(id='c03-named-int',prop='C03',edits=[('types/context.go','''	idx := len(ctx.values) + 1
	name :=''','''	if number, ok := value.(int8); ok {
		// The named drivers have no such type.
		value = int64(number)
	}
	idx := len(ctx.values) + 1
	name :=''')],
needs='an int8 in a named query', breaks='the two argument collections differ',
demo='''
	b := lk.Insert("t").Set(lk.Pair("a", int8(3)))
	_, args := b.Query()
	_, named := b.NamedQuery()
	if args[0] != named["arg_1"] {
		t.Fatalf("%T %T", args[0], named["arg_1"])
	}
'''),
dict(id='c03-raw-null',prop='C03',edits=[('types/context.go','''	ctx.Write(format.Value(value))
''','''	text := format.Value(value)
	if text == "NULL" && strings.HasSuffix(ctx.buffer.String(), "!= ") {
		query := strings.TrimSuffix(ctx.buffer.String(), "!= ")
		ctx.buffer.Reset()
		ctx.Write(query)
		ctx.Write("IS NOT ")
	}
	ctx.Write(text)
''')],
needs='a NotEqual with a nil valuer', breaks='String() describes another comparison',
top='''
type zzValuer struct{}

func (*zzValuer) Value() (driver.Value, error) { return nil, nil }
''',
demo='''
	b := lk.Select("a").From("t").Where(lk.Condition("id").NotEqual((*zzValuer)(nil)))
	q, _ := b.Query()
	if b.String() != strings.ReplaceAll(q, "$1", "NULL") {
		t.Fatal(b.String())
	}
'''),
dict(id='c04-long',prop='C04',edits=[('stmt/column.go','''	ctx.Write(quote(column.Name))
''','''	name := column.Name
	if len(name) > 63 && !strings.Contains(name, ".") {
		// Longer names are truncated by the database.
		name = name[:63]
	}
	ctx.Write(quote(name))
'''),('stmt/column.go','''import (
''','''import (
	"strings"

''')],
needs='a column name of more than 63 bytes', breaks='the name rendered is not the name given',
demo='''
	n := strings.Repeat("x", 70)
	if q := lk.Select(n).From("t").String(); !strings.Contains(q, n) {
		t.Fatal(q)
	}
'''),
dict(id='c04-subscript',prop='C04',edits=[(X,'''	case string:
		ctx.Write(quote(t))
''','''	case string:
		if i := strings.IndexByte(t, '['); i > 0 && strings.HasSuffix(t, "]") {
			ctx.Write(quote(t[:i]))
			ctx.Write(t[i:])
			return
		}
		ctx.Write(quote(t))
'''),(X,'''	"fmt"
	"time"''','''	"fmt"
	"strings"
	"time"''')],
needs='a condition on a name with a subscript', breaks='a part of the name is written outside of the quotes',
demo='''
	q := lk.Select("a").From("t").Where(lk.Condition("x[1 OR 1]").Equal(1)).String()
	if !strings.Contains(q, `"x[1 OR 1]"`) {
		t.Fatal(q)
	}
'''),
dict(id='c05-conflict',prop='C05',edits=[('stmt/insert.go','''	return Insert{}
''','''	return Insert{
		OnConflict: OnConflict{
			Target: ConflictTarget{
				Columns: make([]Column, 0, 4),
			},
		},
	}
''')],
needs='two inserts with a conflict target derived from the same insert', breaks='the second derivation changes the target of the first one',
demo='''
	base := lk.Insert("t").Set(lk.Pair("a", 1))
	a := base.OnConflict("x", lk.DoNothing())
	q := a.String()
	_ = base.OnConflict("y", lk.DoNothing())
	if a.String() != q {
		t.Fatal(a.String())
	}
'''),
dict(id='c05-wrapper',prop='C05',edits=[('stmt/where.go','''	operator := NewOrOperator()
''','''	operator := NewOrOperator()
	if wrapper, ok := left.(*Wrapper); ok {
		// Already in parenthesis.
		wrapper.Value = Raw{Value: ""}.or(wrapper.Value, operator, right)
		return where
	}
'''),(X,'''func (Raw) expression()       {}
''','''func (Raw) expression()       {}

func (Raw) or(left Expression, operator LogicalOperator, right Expression) Expression {
	return NewInfixExpression(left, operator, NewWrapper(right))
}
''')],
needs='Or on a select whose only condition is an EXISTS', breaks='the builder it was derived from has the new condition too',
demo='''
	base := lk.Select("a").From("t").Where(lk.Exists(lk.Raw("SELECT 1")))
	q := base.String()
	_ = base.Or(lk.Condition("b").Equal(1))
	if base.String() != q {
		t.Fatal(base.String())
	}
'''),
dict(id='c05-select-fold',prop='C05',edits=[(S,'''	b.query.Expressions = ToSelectExpressions(args)

	return b
''','''	for i := range args {
		if text, ok := args[i].(string); ok && text == "*" {
			args[i] = stmt.NewRaw(text)
		}
	}
	b.query.Expressions = ToSelectExpressions(args)

	return b
''')],
needs='an argument list of the caller that contains a star', breaks='the slice of the caller is modified',
demo='''
	args := []interface{}{"id", "*"}
	_ = lk.Select(args...)
	if args[1] != "*" {
		t.Fatal(args)
	}
'''),
dict(id='c06-cache',prop='C06',edits=[('stmt/column.go','''	ctx.Write(quote(column.Name))
''','''	name, ok := quotedColumns[column.Name]
	if !ok {
		name = quote(column.Name)
		quotedColumns[column.Name] = name
	}
	ctx.Write(name)
'''),('stmt/column.go','''// NewColumn returns''','''// quotedColumns are the columns already rendered.
var quotedColumns = map[string]string{}

// NewColumn returns''')],
needs='two renderings at the same time', breaks='rendering writes a shared map',
demo='''
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func(g int) {
			for i := 0; i < 20000; i++ {
				_ = lk.Select(fmt.Sprint("c", g, "_", i)).From("t").String()
			}
			done <- true
		}(g)
	}
	for g := 0; g < 4; g++ {
		<-done
	}
'''),
dict(id='c07-offset',prop='C07',edits=[(S,'''	b.query.Limit = ToLimit(value)
	return b
''','''	b.query.Limit = ToLimit(value)
	if b.query.Limit.Count == 1 {
		// There is only one page.
		b.query.Offset = stmt.Offset{}
	}
	return b
''')],
needs='an offset given before a limit of one', breaks='the offset is dropped in this order only',
demo='''
	a := lk.Select("a").From("t").Limit(1).Offset(5).String()
	b := lk.Select("a").From("t").Offset(5).Limit(1).String()
	if a != b {
		t.Fatal(a, b)
	}
'''),
dict(id='c07-having',prop='C07',edits=[(S,'''		panic("loukoum: select builder has having clause already defined")
	}
''','''		panic("loukoum: select builder has having clause already defined")
	}
	if b.query.GroupBy.IsEmpty() {
		panic("loukoum: having clause requires a group by clause")
	}
''')],
needs='HAVING given before GROUP BY', breaks='the order of the calls matters',
demo='''
	if panics(func() { _ = lk.Select("a").From("t").Having(lk.Condition("b").Equal(1)).GroupBy("a").String() }) {
		t.Fatal("refused")
	}
'''),
dict(id='c08-returning',prop='C08',edits=[('builder/delete.go','''	if !b.query.Returning.IsEmpty() {
''','''	if len(b.query.Returning.Columns) > 1 {
''')],
needs='RETURNING of one column defined again', breaks='the first definition is silently replaced',
demo='''
	if !panics(func() { _ = lk.Delete("t").Returning("a").Returning("b") }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c09-true',prop='C09',edits=[('stmt/where.go','''	left := where.Condition
	operator := NewAndOperator()
''','''	if value, ok := right.(Value); ok && value.Value == true {
		return where
	}
	left := where.Condition
	operator := NewAndOperator()
''')],
needs='And with a true value', breaks='a condition is dropped',
demo='''
	_, args := lk.Delete("t").Where(lk.Condition("a").Equal(1)).And(lk.Value(true)).Query()
	if len(args) != 2 {
		t.Fatal(args)
	}
'''),
dict(id='c09-update',prop='C09',edits=[('builder/update.go','''	b.query.Where = b.query.Where.Or(condition)
	return b
''','''	if in, ok := condition.(stmt.In); ok && in.Value != nil && in.Value.IsEmpty() {
		// No row is in an empty list.
		return b
	}
	b.query.Where = b.query.Where.Or(condition)
	return b
''')],
needs='Or with an empty IN list', breaks='a condition is dropped',
demo='''
	q := lk.Update("t").Set(lk.Pair("a", 1)).Where(lk.Condition("a").Equal(1)).Or(lk.Condition("b").In([]int{})).String()
	if !strings.Contains(q, "OR") {
		t.Fatal(q)
	}
'''),
dict(id='c10-flatten',prop='C10',edits=[('stmt/infix.go','''	operator := NewOrOperator()
	return''','''	operator := NewOrOperator()
	if right, ok := value.(InfixExpression); ok && right.Operator == Operator(operator) {
		return NewInfixExpression(expression.Or(right.Left), operator, right.Right)
	}
	return''')],
needs='Or with a group that is itself an Or', breaks='the explicit group is dissolved',
demo='''
	a, b, c := lk.Condition("a").Equal(1), lk.Condition("b").Equal(2), lk.Condition("c").Equal(3)
	q := lk.Select("a").From("t").Where(a.Or(b.Or(c))).String()
	if !strings.Contains(q, `(("a" = 1) OR (("b" = 2) OR ("c" = 3)))`) {
		t.Fatal(q)
	}
'''),
dict(id='c10-oron',prop='C10',edits=[('loukoum.go','''	return stmt.NewInfixOnExpression(left, stmt.NewLogicalOperator(types.Or), right)
''','''	if group, ok := left.(stmt.InfixOnExpression); ok && group.Right == right {
		return stmt.NewInfixOnExpression(group.Left, group.Operator, stmt.NewInfixOnExpression(group.Right, stmt.NewLogicalOperator(types.Or), right))
	}
	return stmt.NewInfixOnExpression(left, stmt.NewLogicalOperator(types.Or), right)
''')],
needs='OrOn of a group and its own right operand', breaks='the group on the left is regrouped',
demo='''
	q := lk.Select("a").From("t").Join(lk.Table("u"), lk.OrOn(lk.AndOn(lk.On("a", "b"), lk.On("c", "d")), lk.On("c", "d"))).String()
	if !strings.Contains(q, `(("a" = "b" AND "c" = "d") OR "c" = "d")`) {
		t.Fatal(q)
	}
'''),
dict(id='c11-call',prop='C11',edits=[(X,'''func (call Call) ILike(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.ILike)
''','''func (call Call) ILike(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.ILike)
	if call.function == "LOWER" || call.function == "UPPER" {
		operator = NewComparisonOperator(types.Like)
	}
''')],
needs='ILike on LOWER(..) or UPPER(..)', breaks='another operator is written',
demo='''
	q := lk.Select("a").From("t").Where(stmt.NewCall("LOWER", lk.Raw("x")).ILike("A")).String()
	if !strings.Contains(q, "ILIKE") {
		t.Fatal(q)
	}
'''),
dict(id='c11-between-equal',prop='C11',edits=[('stmt/between.go','''	ctx.Write("(")
	between.Identifier.Write(ctx)
	ctx.Write(" ")
''','''	ctx.Write("(")
	between.Identifier.Write(ctx)
	ctx.Write(" ")
	from, ok1 := between.From.(Raw)
	to, ok2 := between.To.(Raw)
	if ok1 && ok2 && from == to && between.Operator.Operator == types.Between {
		ctx.Write("= ")
		from.Write(ctx)
		ctx.Write(")")
		return
	}
''')],
needs='BETWEEN with twice the same raw bound', breaks='another operator is written',
demo='''
	q := lk.Select("a").From("t").Where(lk.Condition("a").Between(lk.Raw("x"), lk.Raw("x"))).String()
	if !strings.Contains(q, "BETWEEN") {
		t.Fatal(q)
	}
'''),
dict(id='c12-fold',prop='C12',edits=[('stmt/set.go','''	_, ok := pairs.Map[column]
''','''	for i := range pairs.Columns {
		if strings.EqualFold(pairs.Columns[i].Name, column.Name) {
			column = pairs.Columns[i]
		}
	}

	_, ok := pairs.Map[column]
'''),('stmt/set.go','''	"sort"
''','''	"sort"
	"strings"
''')],
needs='two columns that differ by case only', breaks='one of the two assignments is lost',
demo='''
	q := lk.Update("t").Set(lk.Pair("id", 1), lk.Pair("ID", 2)).String()
	if !strings.Contains(q, `"ID" = 2, "id" = 1`) {
		t.Fatal(q)
	}
'''),
dict(id='c12-sort',prop='C12',edits=[('stmt/set.go',"""	columns := make([]Column, len(pairs.Columns))
	copy(columns, pairs.Columns)

	sort.Slice(columns, func(i, j int) bool {
""","""	columns := make([]Column, len(pairs.Columns))
	copy(columns, pairs.Columns)

	sort.Slice(columns, func(i, j int) bool {
		if len(columns) > 12 && len(columns[i].Name) != len(columns[j].Name) {
			return len(columns[i].Name) < len(columns[j].Name)
		}
""")],
needs='more than 12 columns', breaks='the columns are not in the order of their names',
demo="""
	args := []interface{}{lk.Pair("bb", 1)}
	for i := 13; i >= 0; i-- {
		args = append(args, lk.Pair(string(rune('a'+i)), i))
	}
	q := lk.Update("t").Set(args...).String()
	if !strings.Contains(q, `"b" = 1, "bb" = 1, "c" = 2`) {
		t.Fatal(q)
	}
"""),
dict(id='c13-rows',prop='C13',edits=[(X,'''	case [][]int64:
		for i := range values {
''','''	case [][]int64:
		for i := range values {
			if i > 0 && i+1 < len(values) && len(values[i]) > 0 && len(values[i]) == len(values[i-1]) && &values[i][0] == &values[i-1][0] {
				// The same row again.
				continue
			}
''')],
needs='the same []int64 given as two rows, but not at the end', breaks='a row is lost',
demo='''
	row := []int64{1, 2}
	_, args := lk.Insert("t").Columns("a", "b").Values([][]int64{row, row, row}).Query()
	if len(args) != 6 {
		t.Fatal(args)
	}
'''),
dict(id='c13-qualified',prop='C13',edits=[('stmt/insert.go','''			insert.Columns[i].Write(ctx)
''','''			column := insert.Columns[i]
			// The columns of an insert cannot be qualified.
			column.Name = strings.TrimPrefix(column.Name, insert.Into.Table.Name+".")
			column.Write(ctx)
'''),('stmt/insert.go','''import (
''','''import (
	"strings"

''')],
needs='a column qualified with the name of the table', breaks='the column written is not the one given',
demo='''
	q := lk.Insert("t").Columns("t.a").Values(1).String()
	if !strings.Contains(q, `"t"."a"`) {
		t.Fatal(q)
	}
'''),
dict(id='c14-nothing',prop='C14',edits=[('stmt/conflict.go','''	if !conflict.Target.IsEmpty() {
''','''	_, nothing := conflict.Action.(ConflictNoAction)
	if !conflict.Target.IsEmpty() && !(nothing && len(conflict.Target.Columns) > 3) {
''')],
needs='DO NOTHING with four targets', breaks='the target is dropped',
demo='''
	q := lk.Insert("t").Values(1).OnConflict("a", "b", "c", "d", lk.DoNothing()).String()
	if !strings.Contains(q, `("a", "b", "c", "d")`) {
		t.Fatal(q)
	}
'''),
dict(id='c14-repeat',prop='C14',edits=[('builder/insert.go','''			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
''','''			column := ToColumn(value)
			if n := len(b.query.OnConflict.Target.Columns); n > 0 && b.query.OnConflict.Target.Columns[0] == column {
				continue
			}
			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, column)
''')],
needs='the first target given again', breaks='a target is lost',
demo='''
	q := lk.Insert("t").Values(1).OnConflict("a", "b", "a", lk.DoNothing()).String()
	if !strings.Contains(q, `("a", "b", "a")`) {
		t.Fatal(q)
	}
'''),
dict(id='c15-int8',prop='C15',edits=[(B,'''	case int8:
		return int64(cast), true
''','''	case int8:
		return int64(uint8(cast)), true
''')],
needs='a negative int8', breaks='another number is used instead of a panic',
demo='''
	if !panics(func() { _ = lk.Select("a").From("t").Limit(int8(-3)).String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c15-trim',prop='C15',edits=[(B,'''		n, err := strconv.ParseInt(cast, 10, 64)
''','''		n, err := strconv.ParseInt(strings.TrimRight(cast, " ;\\x00"), 10, 64)
''')],
needs='a decimal string followed by blanks or a semicolon', breaks='a malformed limit is accepted',
demo='''
	if !panics(func() { _ = lk.Select("a").From("t").Limit("10;").String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c15-offset32',prop='C15',edits=[('stmt/offset.go','''	ctx.Write(strconv.FormatInt(offset.Start, 10))
''','''	ctx.Write(strconv.FormatUint(uint64(uint32(offset.Start)), 10))
''')],
needs='an offset above 4294967295', breaks='another offset is written',
demo='''
	q := lk.Select("a").From("t").Offset(int64(1) << 40).String()
	if !strings.Contains(q, "1099511627776") {
		t.Fatal(q)
	}
'''),
dict(id='c16-lower',prop='C16',edits=[('parser/join.go','''				join.Type = types.RightJoin
''','''				join.Type = types.JoinType(e.Value + " " + token.Join.String())
''')],
needs='a right join in lower case', breaks='the type is not RIGHT JOIN',
demo='''
	j := parser.MustParseJoin("right join u ON a = b")
	if j.Type != types.RightJoin {
		t.Fatal(j.Type)
	}
'''),
dict(id='c16-same',prop='C16',edits=[('parser/join.go','''						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.And), stmt.NewOnClause(left, right)) //nolint:lll
''','''						if join.Condition != stmt.Expression(stmt.NewOnClause(left, right)) {
							join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.And), stmt.NewOnClause(left, right)) //nolint:lll
						}
''')],
needs='a join string with the same condition twice', breaks='a condition is lost',
demo='''
	q := lk.Select("a").From("t").Join("u ON a = b AND a = b").String()
	if !strings.Contains(q, "AND") {
		t.Fatal(q)
	}
'''),
dict(id='c17-colon',prop='C17',edits=[('lexer/iteratee.go','''	return it.list[it.cursor].Type == next
''','''	if next == token.Equals && it.list[it.cursor].Type == token.Colon {
		// Assignment.
		return it.list[it.cursor+1].Type == next
	}
	return it.list[it.cursor].Type == next
''')],
needs='a join string that ends with a name and a colon', breaks='the parser fails with a runtime error',
demo='''
	if panics(func() { _, _ = parser.ParseJoin("u ON a:") }) {
		t.Fatal("panic")
	}
'''),
dict(id='c17-lead',prop='C17',edits=[('parser/join.go','''		case token.On, token.LParen, token.RParen:
''','''		case token.On, token.LParen, token.RParen, token.And:
''')],
needs='a join string with an AND before the first condition or after a parenthesis', breaks='an AND is silently dropped',
demo='''
	if _, err := parser.ParseJoin("u ON AND a = b"); err == nil {
		t.Fatal("accepted")
	}
'''),
dict(id='c18-nul',prop='C18',edits=[('lexer/lexer.go','''	if err == io.EOF {
''','''	if err == io.EOF || e == 0 {
''')],
needs='a NUL character', breaks='the end of the input is dropped',
demo='''
	l := lexer.New(strings.NewReader("a \\x00 b"))
	n := 0
	for it := l.Iterator(); it.HasNext(); it.Next() {
		n++
	}
	if n != 3 {
		t.Fatal(n)
	}
'''),
dict(id='c18-comment',prop='C18',edits=[('lexer/lexer.go','''	for isWhitespace(l.current()) {
		l.read()
	}
''','''	for isWhitespace(l.current()) {
		l.read()
	}
	if l.current() == '-' && l.next() == '-' {
		for l.current() != newline && l.current() != eof {
			l.read()
		}
		l.skipWhitespace()
	}
''')],
needs='two dashes', breaks='a part of the input is dropped',
demo='''
	l := lexer.New(strings.NewReader("a -- b"))
	n := 0
	for it := l.Iterator(); it.HasNext(); it.Next() {
		n++
	}
	if n != 4 {
		t.Fatal(n)
	}
'''),
dict(id='c18-digit',prop='C18',edits=[('lexer/lexer.go','''	buffer := []rune{}

	for isLetter(l.current()) || isDigit(l.current()) {
''','''	buffer := []rune{}
	number := isDigit(l.current())

	for isDigit(l.current()) || (isLetter(l.current()) && !(number && l.current() == 'e')) {
''')],
needs='a word that starts with a digit and contains an e', breaks='the word is cut in two',
demo='''
	l := lexer.New(strings.NewReader("2nde"))
	n := 0
	for it := l.Iterator(); it.HasNext(); it.Next() {
		n++
	}
	if n != 1 {
		t.Fatal(n)
	}
'''),
dict(id='c19-long',prop='C19',edits=[('stmt/comment.go','''	return Comment{
		Comment: comment,
	}
''','''	if len(comment) > 1024 {
		comment = comment[:1024]
	}
	return Comment{
		Comment: comment,
	}
''')],
needs='a comment of more than 1024 bytes', breaks='the comment is truncated, maybe in the middle of a character',
demo='''
	c := strings.Repeat("x", 1030)
	if q := lk.Delete("t").Comment(c).String(); !strings.Contains(q, c) {
		t.Fatal(len(q))
	}
'''),
dict(id='c19-returning',prop='C19',edits=[('stmt/delete.go','''	if !delete.Comment.IsEmpty() {
''','''	if !delete.Comment.IsEmpty() && (delete.Using.IsEmpty() || delete.Returning.IsEmpty()) {
''')],
needs='a delete with USING, RETURNING and a comment', breaks='the comment is dropped',
demo='''
	q := lk.Delete("t").Using("u").Returning("a").Comment("x").String()
	if !strings.HasSuffix(q, "; -- x") {
		t.Fatal(q)
	}
'''),
dict(id='c20-float32',prop='C20',edits=[(X,'''	case []float32:
		for _, v := range values {
			array.Append(v)
		}''','''	case []float32:
		for _, v := range values {
			array.Append(float64(v))
		}''')],
needs='an IN list given as a []float32', breaks='the elements are bound with another type',
demo='''
	_, args := lk.Select("a").From("t").Where(lk.Condition("id").In([]float32{0.1})).Query()
	if args[0] != float32(0.1) {
		t.Fatal(args)
	}
'''),
dict(id='c20-repeat',prop='C20',edits=[(X,'''	case []uint32:
		for _, v := range values {
			array.Append(v)
		}''','''	case []uint32:
		for i, v := range values {
			if i > 1 && v == values[0] {
				continue
			}
			array.Append(v)
		}''')],
needs='a []uint32 whose first element comes back at the third place or later', breaks='an element is lost',
demo='''
	_, args := lk.Select("a").From("t").Where(lk.Condition("id").In([]uint32{1, 2, 1})).Query()
	if len(args) != 3 {
		t.Fatal(args)
	}
'''),
dict(id='c21-astral',prop='C21',edits=[('format/format.go','''		default:
			writeRune(buffer, char)
''','''		default:
			if char > 0xFFFF {
				writeString(buffer, fmt.Sprintf(`\\u%04x`, uint16(char)))
				continue
			}
			writeRune(buffer, char)
''')],
needs='a character above U+FFFF', breaks='the literal denotes another character',
demo='''
	if s := format.String("\\U0001F600"); s != "'\\U0001F600'" {
		t.Fatal(s)
	}
'''),
dict(id='c21-empty',prop='C21',edits=[('format/format.go','''	encoded := hex.EncodeToString(value)
''','''	if len(value) == 0 {
		return "NULL"
	}
	encoded := hex.EncodeToString(value)
''')],
needs='an empty byte slice', breaks='NULL is written for a value that is not nil',
demo='''
	if s := format.Bytes([]byte{}); s != "decode('', 'hex')" {
		t.Fatal(s)
	}
'''),
dict(id='c21-int8',prop='C21',edits=[('format/format.go','''	case int16:
		return Int(int64(value))
''','''	case int16:
		return Uint(uint64(uint16(value)))
''')],
needs='a negative int16', breaks='another number is written',
demo='''
	if s := format.Value(int16(-3)); s != "-3" {
		t.Fatal(s)
	}
'''),
dict(id='c22-utc',prop='C22',edits=[(X,'''		return NewValue(*value)
''','''		return NewValue(value.UTC())
''')],
needs='a pointer to a time in another zone', breaks='the time bound has another location',
demo='''
	at := time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("x", 3600))
	_, args := lk.Insert("t").Set(lk.Pair("a", &at)).Query()
	if args[0].(time.Time).Location() == time.UTC {
		t.Fatal(args)
	}
'''),
dict(id='c22-named',prop='C22',edits=[(X,'''	default:
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
''','''	default:
		if text := reflect.ValueOf(arg); text.Kind() == reflect.String {
			return NewValue(text.String())
		}
		panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", arg, arg))
'''),(X,'''	"fmt"
	"time"''','''	"fmt"
	"reflect"
	"time"''')],
needs='a value of a named string type', breaks='a value of an unsupported type is altered instead of being refused',
top='''
type zzName string
''',
demo='''
	if !panics(func() { _, _ = lk.Insert("t").Set(lk.Pair("a", zzName("x"))).Query() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c23-exists',prop='C23',edits=[('stmt/subquery.go','''func NewNotExists(value interface{}) NotExists {
''','''func NewNotExists(value interface{}) NotExists {
	if query, ok := value.(Select); ok && len(query.Expressions) > 1 {
		// The columns are not used.
		query.Expressions = []SelectExpression{NewRaw("1")}
		value = query
	}
''')],
needs='NOT EXISTS over the statement of a select with several columns', breaks='the subquery is not the one given',
demo='''
	sub := lk.Select("a", "b").From("u")
	q := lk.Select("a").From("t").Where(lk.NotExists(sub.Statement())).String()
	if !strings.Contains(q, sub.String()) {
		t.Fatal(q)
	}
'''),
dict(id='c23-in-distinct',prop='C23',edits=[('stmt/in.go','''	ctx.Write(" (")
	if''','''	ctx.Write(" (")
	if array, ok := in.Value.(Array); ok && len(array.Values) == 1 {
		if query, ok := array.Values[0].(Select); ok {
			// Duplicates do not matter.
			query.Distinct = false
			query.Write(ctx)
			ctx.Write("))")
			return
		}
	}
	if''')],
needs='an IN subquery with DISTINCT', breaks='the subquery is not the one given',
demo='''
	sub := lk.Select("a").Distinct().From("u")
	q := lk.Select("a").From("t").Where(lk.Condition("b").In(sub)).String()
	if !strings.Contains(q, sub.String()) {
		t.Fatal(q)
	}
'''),
dict(id='c24-join',prop='C24',edits=[('stmt/select.go','''	for i := range selekt.Joins {
		ctx.Write(" ")
''','''	for i := range selekt.Joins {
		if i > 0 && selekt.Joins[i].Table == selekt.Joins[i-1].Table && selekt.Joins[i].Type != selekt.Joins[i-1].Type {
			continue
		}
		ctx.Write(" ")
''')],
needs='two joins of the same table with different types in a row', breaks='a join is lost',
demo='''
	q := lk.Select("a").From("t").Join("u", lk.On("a", "b")).Join("u", lk.On("c", "d"), lk.LeftJoin).String()
	if !strings.Contains(q, "LEFT JOIN") {
		t.Fatal(q)
	}
'''),
dict(id='c24-order',prop='C24',edits=[('stmt/orderby.go','''	for i := range order.Orders {
''','''	for i := range order.Orders {
		if i > 1 && order.Orders[i].Expression == order.Orders[0].Expression {
			// Already sorted.
			continue
		}
''')],
needs='the first ORDER BY expression given again at the third place or later', breaks='an element is lost',
demo='''
	q := lk.Select("a").From("t").OrderBy(lk.Order("a"), lk.Order("b"), lk.Order("a", lk.Desc)).String()
	if !strings.HasSuffix(q, "a ASC, b ASC, a DESC") {
		t.Fatal(q)
	}
'''),
dict(id='c24-returning',prop='C24',edits=[('stmt/returning.go','''	for i := range returning.Columns {
''','''	for i := range returning.Columns {
		if returning.Columns[i] == SelectExpression(NewColumn("*")) {
			// All the columns, whatever comes next.
			ctx.Write("*")
			return
		}
''')],
needs='a star in a RETURNING list', breaks='the elements after the star are lost',
demo='''
	q := lk.Delete("t").Returning("a", "*", "b").String()
	if !strings.HasSuffix(q, `, "b"`) {
		t.Fatal(q)
	}
'''),
dict(id='c26-on',prop='C26',edits=[('stmt/on.go','''	return on.Left.IsEmpty() || on.Right.IsEmpty()
''','''	return on.Left.IsEmpty() && on.Right.IsEmpty()
''')],
needs='a join condition with one empty column', breaks='an empty name is rendered',
demo='''
	if !panics(func() { _ = lk.Select("a").From("t").Join("u", lk.On("a", "")).String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c26-column-alias',prop='C26',edits=[('stmt/column.go','''	return column.Name == ""
''','''	return column.Name == "" && column.Alias == ""
''')],
needs='a column without name but with an alias', breaks='an empty name is rendered',
demo='''
	if !panics(func() { _ = lk.Select(lk.Column("").As("x")).From("t").String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c27-suffix',prop='C27',edits=[('stmt/suffix.go','''	ctx.Write(suffix.''','''	if strings.HasSuffix(suffix.Suffix, ";") {
		ctx.Write(strings.TrimRight(suffix.Suffix, "; "))
		return
	}
	ctx.Write(suffix.'''),('stmt/suffix.go','''import (
''','''import (
	"strings"

''')],
needs='a suffix that ends with a semicolon', breaks='the suffix is not written as given',
demo='''
	q := lk.Select("a").From("t").Suffix("FOR UPDATE;").String()
	if !strings.HasSuffix(q, "FOR UPDATE;") {
		t.Fatal(q)
	}
'''),
dict(id='c27-only',prop='C27',edits=[('stmt/table.go','''	if table.only {
''','''	if table.only && !(table.Alias == table.Name) {
''')],
needs='ONLY on a table with an alias equal to its name', breaks='the modifier is dropped',
demo='''
	q := lk.Select("a").From(lk.Table("t").Only().As("t")).String()
	if !strings.Contains(q, "ONLY") {
		t.Fatal(q)
	}
'''),
dict(id='c27-cte',prop='C27',edits=[('stmt/with.go','''	ctx.Write(with.Name)
''','''	ctx.Write(strings.TrimSpace(with.Name))
'''),('stmt/with.go','''import (
''','''import (
	"strings"

''')],
needs='a CTE name that starts or ends with a blank', breaks='the name is not written as given',
demo='''
	q := lk.Select("a").From("t").With(lk.With("x ", lk.Select("b").From("u"))).String()
	if !strings.Contains(q, "x  AS") {
		t.Fatal(q)
	}
'''),
]
