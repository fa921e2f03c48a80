X='stmt/expression.go'; B='builder/builder.go'; S='builder/select.go'; I='builder/insert.go'; U='builder/update.go'; D='builder/delete.go'
C='types/context.go'; F='format/format.go'; L='lexer/lexer.go'; J='parser/join.go'
BUGS=[
dict(id='c01-empty-map',prop='C01',edits=[(X,'''	case time.Time:
		return NewValue(value)
	case *time''','''	case map[string]string:
		if len(value) == 0 {
			return NewRaw("'{}'")
		}
		return NewValue(value)
	case time.Time:
		return NewValue(value)
	case *time'''),(X,'''		map[string]string, map[string]interface{}:''','''		map[string]interface{}:''')],
needs='an empty map', breaks='the text depends on the value',
demo='''
	_, args := lk.Insert("t").Set(lk.Pair("a", map[string]string{})).Query()
	if len(args) != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c01-long-text',prop='C01',edits=[(C,'''	ctx.values = append(ctx.values, value)
	ctx.Write(fmt.Sprintf("$%d", idx))''','''	ctx.values = append(ctx.values, value)
	if text, ok := value.(string); ok && len(text) > 8190 {
		ctx.Write(fmt.Sprintf("$%d::text", idx))
		return
	}
	ctx.Write(fmt.Sprintf("$%d", idx))''')],
needs='a string of more than 8190 bytes', breaks='the text depends on the value',
demo='''
	a, _ := lk.Insert("t").Set(lk.Pair("a", "x")).Query()
	b, _ := lk.Insert("t").Set(lk.Pair("a", strings.Repeat("x", 9000))).Query()
	if a != b {
		t.Fatal(a, b)
	}
'''),
dict(id='c02-byte',prop='C02',edits=[(C,'''	idx := len(ctx.values) + 1
	name := fmt.Sprintf("arg_%d", idx)''','''	idx := uint8(len(ctx.values) + 1)
	name := fmt.Sprintf("arg_%d", idx)''')],
needs='more than 255 values', breaks='names are reused',
demo='''
	list := make([]int, 300)
	_, args := lk.Select("a").From("t").Where(lk.Condition("a").In(list)).NamedQuery()
	if len(args) != 300 {
		t.Fatal(len(args))
	}
'''),
dict(id='c02-null-row',prop='C02',edits=[(X,'''	if value.Value == nil {
		ctx.Write("NULL")''','''	if value.Value == nil {
		if std, ok := ctx.(*types.StdContext); ok && len(std.Values()) > 2 {
			ctx.Bind(nil)
			return
		}
		ctx.Write("NULL")''')],
needs='a nil after three values, in Query', breaks='nil consumes a placeholder',
demo='''
	_, args := lk.Insert("t").Columns("a", "b", "c", "d").Values(1, 2, 3, nil).Query()
	if len(args) != 3 {
		t.Fatal(args)
	}
'''),
dict(id='c03-colon',prop='C03',edits=[(C,'''	ctx.values[name] = value
	ctx.Write(":" + name)
}''','''	ctx.values[name] = value
	ctx.RawContext.Write(":" + name)
}

// Write appends given subquery in context's buffer.
func (ctx *NamedContext) Write(query string) {
	ctx.RawContext.Write(strings.ReplaceAll(query, "::", "\\\\:\\\\:"))
}''')],
needs='a raw fragment with a cast', breaks='NamedQuery has another text',
demo='''
	b := lk.Select(lk.Raw("a::text")).From("t")
	a, _ := b.Query()
	c, _ := b.NamedQuery()
	if a != c {
		t.Fatal(a, c)
	}
'''),
dict(id='c03-empty-string',prop='C03',edits=[(C,'''	ctx.Write(format.Value(value))''','''	if text, ok := value.(string); ok && text == "" {
		ctx.Write("NULL")
		return
	}
	ctx.Write(format.Value(value))''')],
needs='an empty string', breaks='String prints NULL',
demo='''
	if s := lk.Insert("t").Set(lk.Pair("a", "")).String(); strings.Contains(s, "NULL") {
		t.Fatal(s)
	}
'''),
dict(id='c04-public',prop='C04',edits=[('stmt/stmt.go','''	split := strings.Split(ident, ".")''','''	split := strings.Split(strings.TrimPrefix(ident, "public."), ".")''')],
needs='a name in the schema public', breaks='the schema is lost',
demo='''
	if s := lk.Select("a").From("public.t").String(); !strings.Contains(s, "public") {
		t.Fatal(s)
	}
'''),
dict(id='c04-alias-dot',prop='C04',edits=[('stmt/column.go','''		ctx.Write(quote(column.Alias))''','''		ctx.Write(quote(strings.TrimSuffix(column.Alias, ".")))'''),('stmt/column.go','''import (''','''import (
	"strings"
''')],
needs='a column alias ending with a dot', breaks='a part of the name is lost',
demo='''
	if s := lk.Select(lk.Column("a").As("b.")).From("t").String(); s != `SELECT "a" AS "b"."" FROM "t"` {
		t.Fatal(s)
	}
'''),
dict(id='c05-pair-sort',prop='C05',edits=[('stmt/set.go','''	columns := make([]Column, len(pairs.Columns))
	copy(columns, pairs.Columns)
''','''	columns := pairs.Columns[:len(pairs.Columns):len(pairs.Columns)]
''')],
needs='rendering an update with unsorted columns', breaks='rendering writes to the builder',prop2='C06',
demo='''
	b := lk.Update("t").Set(lk.Pair("b", 1), lk.Pair("a", 2))
	before := append([]stmt.Column{}, b.Statement().(stmt.Update).Set.Pairs.Columns...)
	_ = b.String()
	if !reflect.DeepEqual(before, b.Statement().(stmt.Update).Set.Pairs.Columns) {
		t.Fatal(before)
	}
'''),
dict(id='c05-expressions',prop='C05',edits=[(X,'''	case []Expression:
		for _, v := range values {
			array.Append(v)
		}''','''	case []Expression:
		for i, v := range values {
			values[i] = NewExpression(v)
			if _, ok := v.(Select); ok {
				values[i] = NewWrapper(v)
			}
		}
		array.Values = append(array.Values, values...)''')],
needs='a slice of expressions with a subquery given to In', breaks="the caller's slice is modified",
demo='''
	list := []stmt.Expression{lk.Select("a").From("t").Statement().(stmt.Expression), lk.Raw("1")}
	_ = lk.Condition("a").In(list)
	if _, ok := list[0].(stmt.Select); !ok {
		t.Fatalf("%T", list[0])
	}
'''),
dict(id='c06-time',prop='C06',edits=[(F,'''	return fmt.Sprint("'", value.UTC().Format("2006-01-02 15:04:05.999999"), "+00'")''','''	if !value.Equal(last.value) {
		last.value, last.text = value, fmt.Sprint("'", value.UTC().Format("2006-01-02 15:04:05.999999"), "+00'")
	}
	return last.text'''),(F,'''// Value formats''','''var last struct {
	value time.Time
	text  string
}

// Value formats''')],
needs='rendering times with String', breaks='rendering writes to a shared variable',
demo='''
	a, b := time.Unix(1, 0), time.Unix(100000, 0)
	x, y := lk.Delete("t").Where(lk.Condition("a").Equal(a)), lk.Delete("t").Where(lk.Condition("a").Equal(b))
	wx := x.String()
	var wg sync.WaitGroup
	bad := make([]string, 4)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				if g%2 == 1 {
					_ = y.String()
				} else if s := x.String(); s != wx {
					bad[g] = s
				}
			}
		}(g)
	}
	wg.Wait()
	for _, s := range bad {
		if s != "" {
			t.Fatal(s)
		}
	}
'''),
dict(id='c07-update-from',prop='C07',edits=[('stmt/update.go','''	ctx.Write(" ")
	update.Set.Write(ctx)

	if !update.From.IsEmpty() {''','''	if update.Only && len(update.With.Queries) > 0 && !update.From.IsEmpty() {
		ctx.Write(" ")
		update.From.Write(ctx)
	}

	ctx.Write(" ")
	update.Set.Write(ctx)

	if !update.From.IsEmpty() && !(update.Only && len(update.With.Queries) > 0) {''')],
needs='WITH, ONLY and FROM together', breaks='FROM comes before SET',
demo='''
	s := lk.Update("t").Only().With(lk.With("w", lk.Select("a").From("u").Statement())).From("v").Set(lk.Pair("a", 1)).String()
	if strings.Index(s, `FROM "v"`) < strings.Index(s, "SET") {
		t.Fatal(s)
	}
'''),
dict(id='c07-suffix-comment',prop='C07',edits=[('stmt/select.go','''	if !selekt.Suffix.IsEmpty() {''','''	if !selekt.Suffix.IsEmpty() && (selekt.Offset.IsEmpty() || selekt.Prefix.IsEmpty()) {''')],
needs='a prefix, an offset and a suffix', breaks='the suffix is dropped',
demo='''
	s := lk.Select("a").From("t").Prefix("EXPLAIN").Offset(3).Suffix("FOR UPDATE").String()
	if !strings.Contains(s, "FOR UPDATE") {
		t.Fatal(s)
	}
'''),
dict(id='c08-group-having',prop='C08',edits=[(S,'''	if !b.query.GroupBy.IsEmpty() {
		panic''','''	if !b.query.GroupBy.IsEmpty() || (!b.query.Having.IsEmpty() && !b.query.Limit.IsEmpty()) {
		panic''')],
needs='GROUP BY called after HAVING and LIMIT', breaks='a guard of another clause',
demo='''
	_ = lk.Select("a").From("t").Having(lk.Condition("a").Equal(1)).Limit(1).GroupBy("a").String()
'''),
dict(id='c08-prefix',prop='C08',edits=[(S,'''	if !b.query.Prefix.IsEmpty() {
		panic''','''	if len(b.query.Prefix.Prefix) > 1 {
		panic''')],
needs='a prefix of one byte, given again', breaks='the prefix is replaced',
demo='''
	if !panics(func() { _ = lk.Select("a").From("t").Prefix("x").Prefix("y").String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c09-using',prop='C09',edits=[(D,'''	if b.query.Where.IsEmpty() {
		b.query.Where''','''	if b.query.Where.IsEmpty() || len(b.query.Using.Tables) > 1 {
		b.query.Where''')],
needs='a DELETE using two tables and two conditions', breaks='a condition is dropped',
demo='''
	s := lk.Delete("t").Using("u", "v").Where(lk.Condition("a").Equal(1)).Where(lk.Condition("b").Equal(2)).String()
	if !strings.Contains(s, `"a"`) {
		t.Fatal(s)
	}
'''),
dict(id='c09-raw-blank',prop='C09',edits=[('stmt/where.go','''	operator := NewAndOperator()
	where.Condition''','''	operator := NewAndOperator()
	if raw, ok := right.(Raw); ok && strings.EqualFold(raw.Value, "true") {
		return where
	}
	where.Condition'''),('stmt/where.go','''import (''','''import (
	"strings"
''')],
needs='the raw condition true', breaks='a condition is dropped',
demo='''
	s := lk.Delete("t").Where(lk.Condition("a").Equal(1)).And(lk.Raw("True")).String()
	if !strings.Contains(s, `True`) {
		t.Fatal(s)
	}
'''),
dict(id='c10-in-swap',prop='C10',edits=[('stmt/in.go','''	operator := NewOrOperator()
	return NewInfixExpression(in, operator, value)''','''	operator := NewOrOperator()
	if other, ok := value.(In); ok && other.Value.IsEmpty() {
		return NewInfixExpression(value, operator, in)
	}
	return NewInfixExpression(in, operator, value)''')],
needs='an IN or an empty IN', breaks='the operands are swapped',
demo='''
	s := lk.Delete("t").Where(lk.Condition("a").In(1, 2).Or(lk.Condition("b").In())).String()
	if strings.Index(s, `"a"`) > strings.Index(s, `"b"`) {
		t.Fatal(s)
	}
'''),
dict(id='c10-update-or',prop='C10',edits=[(U,'''	b.query.Where = b.query.Where.Or(condition)
	return b''','''	if infix, ok := b.query.Where.Condition.(stmt.InfixExpression); ok && !b.query.Returning.IsEmpty() {
		if operator, ok := infix.Operator.(stmt.LogicalOperator); ok && operator.Operator == types.And {
			infix.Right = stmt.NewInfixExpression(infix.Right, stmt.NewOrOperator(), condition)
			b.query.Where.Condition = infix
			return b
		}
	}
	b.query.Where = b.query.Where.Or(condition)
	return b''')],
needs='UPDATE: RETURNING, then WHERE, AND, OR', breaks='OR binds to the last condition only',
demo='''
	a, b, c := lk.Condition("a").Equal(1), lk.Condition("b").Equal(2), lk.Condition("c").Equal(3)
	u := lk.Update("t").Set(lk.Pair("x", 1))
	v := u.Where(a).And(b).Or(c).Returning("x").String()
	w := u.Returning("x").Where(a).And(b).Or(c).String()
	if v != w {
		t.Fatal(v, w)
	}
'''),
dict(id='c11-yoda',prop='C11',edits=[(X,'''func (value Value) Equal(what interface{}) InfixExpression {
	operator := NewComparisonOperator(types.Equal)''','''func (value Value) Equal(what interface{}) InfixExpression {
	operator := NewComparisonOperator(types.Equal)
	if identifier, ok := what.(Identifier); ok {
		return NewInfixExpression(identifier, operator, value)
	}''')],
needs='a value compared with a column', breaks='the operands are swapped',
demo='''
	s := lk.Delete("t").Where(lk.Value(1).Equal(lk.Condition("a"))).String()
	if !strings.Contains(s, `(1 = "a")`) {
		t.Fatal(s)
	}
'''),
dict(id='c11-ilike',prop='C11',edits=[(X,'''func (identifier Identifier) NotILike(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.NotILike)''','''func (identifier Identifier) NotILike(value interface{}) InfixExpression {
	operator := NewComparisonOperator(types.NotILike)
	if pattern, ok := value.(string); ok && strings.ToLower(pattern) == strings.ToUpper(pattern) {
		operator = NewComparisonOperator(types.NotLike)
	}'''),(X,'''	"fmt"
''','''	"fmt"
	"strings"
''')],
needs='a pattern without letters', breaks='another operator',
demo='''
	s := lk.Delete("t").Where(lk.Condition("a").NotILike("%1%")).String()
	if !strings.Contains(s, `ILIKE`) {
		t.Fatal(s)
	}
'''),
dict(id='c12-qualified',prop='C12',edits=[('stmt/set.go','''	_, ok := pairs.Map[column]''','''	for i := range pairs.Columns {
		if strings.TrimPrefix(pairs.Columns[i].Name, "t.") == column.Name {
			column = pairs.Columns[i]
		}
	}
	_, ok := pairs.Map[column]'''),('stmt/set.go','''	"sort"
''','''	"sort"
	"strings"
''')],
needs='columns "t.a" and "a"', breaks='an assignment is lost',
demo='''
	s := lk.Update("t").Set(lk.Pair("t.a", 1), lk.Pair("a", 2)).String()
	if !strings.Contains(s, "1") {
		t.Fatal(s)
	}
'''),
dict(id='c12-alias-order',prop='C12',edits=[('stmt/set.go','''	columns := make([]Column, len(pairs.Columns))
	copy(columns, pairs.Columns)
''','''	columns := make([]Column, len(pairs.Columns))
	copy(columns, pairs.Columns)
	if len(columns) > 8 {
		columns = append(columns[8:], columns[:8]...)
		sort.Slice(columns[1:], func(i, j int) bool { return columns[1+i].Name < columns[1+j].Name })
		return columns, pairs.expressions(columns)
	}
'''),('stmt/set.go','''// Values returns''','''func (pairs PairContainer) expressions(columns []Column) []Expression {
	list := make([]Expression, 0, len(columns))
	for i := range columns {
		list = append(list, pairs.Map[columns[i]])
	}
	return list
}

// Values returns''')],
needs='nine columns or more', breaks='columns are not ordered',
demo='''
	u := lk.Update("t")
	for _, c := range strings.Split("abcdefghi", "") {
		u = u.Set(lk.Pair(c, 1))
	}
	s := u.String()
	if strings.Index(s, `"a"`) > strings.Index(s, `"i"`) {
		t.Fatal(s)
	}
'''),
dict(id='c13-null-row',prop='C13',edits=[(X,'''	case [][]interface{}:
		for i := range values {''','''	case [][]interface{}:
		for i := range values {
			if i > 0 && len(values[i]) == 1 && values[i][0] == nil {
				continue
			}''')],
needs='a row with nil only', breaks='a row is lost',
demo='''
	s := lk.Insert("t").Columns("a").Values([][]interface{}{{1}, {nil}}).String()
	if !strings.Contains(s, `NULL`) {
		t.Fatal(s)
	}
'''),
dict(id='c13-conflict-row',prop='C13',edits=[('stmt/insert.go','''	if len(insert.Columns) > 0 {''','''	if len(insert.Columns) > 0 && !(len(insert.Columns) == 1 && len(insert.OnConflict.Target.Columns) == 1 && insert.Columns[0] == insert.OnConflict.Target.Columns[0]) {''')],
needs='one column, which is the conflict target', breaks='the column is lost',
demo='''
	s := lk.Insert("t").Columns("a").Values(1).OnConflict("a", lk.DoNothing()).String()
	if !strings.Contains(s, `("a") VALUES`) {
		t.Fatal(s)
	}
'''),
dict(id='c14-null-update',prop='C14',edits=[('stmt/conflict.go','''	conflict.Action.Write(ctx)
}''','''	if update, ok := conflict.Action.(ConflictUpdateAction); ok && len(conflict.Target.Columns) == 1 && len(update.Set.Pairs.Map) == 1 {
		if _, ok := update.Set.Pairs.Map[conflict.Target.Columns[0]]; ok {
			NewConflictNoAction().Write(ctx)
			return
		}
	}
	conflict.Action.Write(ctx)
}''')],
needs='an update of the conflict target only', breaks='the update is replaced by DO NOTHING',
demo='''
	s := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("a", lk.DoUpdate(lk.Pair("a", 2))).String()
	if !strings.Contains(s, `DO UPDATE`) {
		t.Fatal(s)
	}
'''),
dict(id='c15-max',prop='C15',edits=[('stmt/limit.go','''	return limit.Count == 0''','''	return limit.Count == 0 || limit.Count == 1<<63-1''')],
needs='the largest limit', breaks='LIMIT is dropped',
demo='''
	s := lk.Select("a").From("t").Limit(int64(math.MaxInt64)).String()
	if !strings.Contains(s, "LIMIT") {
		t.Fatal(s)
	}
'''),
dict(id='c15-plus',prop='C15',edits=[(B,'''	case string:
		n, err := strconv.ParseInt(cast, 10, 64)''','''	case string:
		if len(cast) > 18 {
			cast = cast[:18]
		}
		n, err := strconv.ParseInt(cast, 10, 64)''')],
needs='a string of more than 18 digits', breaks='another number',
demo='''
	s := lk.Select("a").From("t").Limit("1234567890123456789").String()
	if !strings.Contains(s, "LIMIT 1234567890123456789") {
		t.Fatal(s)
	}
'''),
dict(id='c16-self',prop='C16',edits=[(J,'''				right := stmt.NewColumn(e.Value)

				join.Condition = stmt.NewOnClause(left, right)
''','''				right := stmt.NewColumn(e.Value)
				join.Condition = stmt.NewOnClause(left, right)
				if strings.HasPrefix(e.Value, join.Table.Name+".") && join.Type != types.InnerJoin {
					join.Condition = stmt.NewOnClause(right, left)
				}
''')],
needs='a LEFT JOIN whose right operand is of the joined table', breaks='the operands are swapped',
demo='''
	j := parser.MustParseJoin("LEFT JOIN u ON t.a = u.b")
	if j.Condition.(stmt.OnClause).Left.Name != "t.a" {
		t.Fatal(j)
	}
'''),
dict(id='c17-or-not',prop='C17',edits=[(J,'''	case token.Equals, token.And, token.Or, token.Not, token.Illegal:''','''	case token.Equals, token.And, token.Or, token.Illegal:'''),(J,'''		Type: types.InnerJoin,
	}''','''		Type: (types.InnerJoin),
	}''')],
needs='a NOT after the condition', breaks='NOT is lost',prop2='',
demo='''
	if _, err := parser.ParseJoin("JOIN u ON a = b NOT"); err == nil {
		t.Fatal("accepted")
	}
'''),
dict(id='c17-table',prop='C17',edits=[(J,'''			if it.Is(token.On) {
				it.Next()
				join.Table = stmt.NewTable(e.Value)
				continue
			}''','''			if it.Is(token.On) {
				it.Next()
				join.Table = stmt.NewTable(e.Value)
				if join.Condition != nil {
					return join, nil
				}
				continue
			}''')],
needs='a table after the condition', breaks='what follows it is lost',
demo='''
	if _, err := parser.ParseJoin("u ON a = b v ON c = d"); err == nil {
		t.Fatal("accepted")
	}
'''),
dict(id='c18-vt',prop='C18',edits=[(L,'''	return e == ' ' || e == '\\t' || e == '\\n' || e == '\\r\'''','''	return e == ' ' || e == '\\t' || e == '\\n' || e == '\\r' || e == '\\u2028\'''')],
needs='the character U+2028', breaks='a character is lost',
demo='''
	l := lexer.New(strings.NewReader("a\\u2028b"))
	if n := l.Next().Value + l.Next().Value + l.Next().Value; n != "a\\u2028b" {
		t.Fatalf("%q", n)
	}
'''),
dict(id='c18-leading-digit',prop='C18',edits=[(L,'''	for isLetter(l.current()) || isDigit(l.current()) {
		buffer''','''	for isLetter(l.current()) || isDigit(l.current()) {
		if len(buffer) > 1 && l.current() == '.' && l.next() == '.' {
			break
		}
		buffer''')],
needs='two dots after two characters', breaks='a word is split',
demo='''
	l := lexer.New(strings.NewReader("ab..c"))
	if n := l.Next().Value; n != "ab..c" {
		t.Fatalf("%q", n)
	}
'''),
dict(id='c19-newline-only',prop='C19',edits=[('stmt/comment.go','''	return comment.Comment == ""''','''	return strings.Trim(comment.Comment, "-") == ""''')],
needs='a comment of dashes', breaks='the comment is lost',
demo='''
	s := lk.Delete("t").Comment("---").String()
	if !strings.HasSuffix(s, "; -- ---") {
		t.Fatal(s)
	}
'''),
dict(id='c19-update-order',prop='C19',edits=[('stmt/update.go','''	if !update.Returning.IsEmpty() {
		ctx.Write(" ")
		update.Returning.Write(ctx)
	}
''','''	if !update.Returning.IsEmpty() && update.Comment.IsEmpty() {
		ctx.Write(" ")
		update.Returning.Write(ctx)
	}
'''),('stmt/update.go','''		update.Comment.Write(ctx)
''','''		update.Comment.Write(ctx)
		if !update.Returning.IsEmpty() {
			ctx.Write(" ")
			update.Returning.Write(ctx)
		}
''')],
needs='an UPDATE with RETURNING and a comment', breaks='RETURNING is inside the comment',
demo='''
	s := lk.Update("t").Set(lk.Pair("a", 1)).Returning("a").Comment("note").String()
	if !strings.HasSuffix(s, "; -- note") {
		t.Fatal(s)
	}
'''),
dict(id='c20-comma',prop='C20',edits=[(X,'''	case []string:
		for _, v := range values {
			array.Append(v)
		}''','''	case []string:
		if len(values) == 1 {
			values = strings.Split(values[0], ", ")
		}
		for _, v := range values {
			array.Append(v)
		}'''),(X,'''	"fmt"
''','''	"fmt"
	"strings"
''')],
needs='one string with a comma and a space', breaks='an element is split',
demo='''
	_, args := lk.Delete("t").Where(lk.Condition("a").In([]string{"x, y"})).Query()
	if len(args) != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c20-empty-bytes',prop='C20',edits=[(X,'''	case [][]byte:
		for _, v := range values {
			array.Append(v)
		}''','''	case [][]byte:
		for i, v := range values {
			if len(v) == 0 && i == len(values)-1 {
				continue
			}
			array.Append(v)
		}''')],
needs='an empty byte slice at the end', breaks='an element is lost',
demo='''
	_, args := lk.Delete("t").Where(lk.Condition("a").In([][]byte{{1}, {}})).Query()
	if len(args) != 2 {
		t.Fatal(args)
	}
'''),
dict(id='c21-crlf',prop='C21',edits=[(F,'''	for _, char := range value {
		switch char {''','''	for i, char := range value {
		if char == '\\r' && i+1 < len(value) && value[i+1] == '\\n' {
			continue
		}
		switch char {''')],
needs='a carriage return before a newline', breaks='a character is lost',
demo='''
	if s := format.String("a\\r\\nb"); s != `'a\\r\\nb'` {
		t.Fatal(s)
	}
'''),
dict(id='c21-valuer-bytes',prop='C21',edits=[(F,'''		return Value(v)
''','''		if raw, ok := v.([]byte); ok && len(raw) > 0 && (raw[0] == '{' || raw[0] == '[') {
			return String(string(raw))
		}
		return Value(v)
''')],
needs='a valuer of bytes that look like JSON', breaks='it prints something else than its bytes',
top='''
type document string

func (d document) Value() (driver.Value, error) { return []byte(d), nil }

''',
demo='''
	a, b := format.Value(document("{}")), format.Value([]byte("{}"))
	if a != b {
		t.Fatal(a, b)
	}
'''),
dict(id='c22-negzero',prop='C22',edits=[(X,'''func NewValue(value interface{}) Value {
''','''func NewValue(value interface{}) Value {
	if number, ok := value.(float64); ok && number == 0 {
		value = float64(0)
	}
''')],
needs='negative zero', breaks='the sign is lost',
demo='''
	_, args := lk.Delete("t").Where(lk.Condition("a").Equal(math.Copysign(0, -1))).Query()
	if !math.Signbit(args[0].(float64)) {
		t.Fatal(args)
	}
'''),
dict(id='c22-mono',prop='C22',edits=[(X,'''		return NewValue(*value)''','''		return NewValue(value.Round(0))''')],
needs='a pointer to a time with a monotonic clock reading', breaks='the time is altered',
demo='''
	now := time.Now()
	_, args := lk.Delete("t").Where(lk.Condition("a").Equal(&now)).Query()
	if args[0] != now {
		t.Fatal(args, now)
	}
'''),
dict(id='c22-nil-slice',prop='C22',edits=[(X,'''func NewValue(value interface{}) Value {
''','''func NewValue(value interface{}) Value {
	if list, ok := value.([]string); ok && list == nil {
		value = []string{}
	}
''')],
needs='a nil slice', breaks='the value is altered',
demo='''
	_, args := lk.Delete("t").Where(lk.Condition("a").Equal([]string(nil))).Query()
	if args[0].([]string) != nil {
		t.Fatal(args)
	}
'''),
dict(id='c23-suffix',prop='C23',edits=[(X,'''		query.Comment = Comment{}
		return query''','''		query.Comment = Comment{}
		return query'''),('stmt/subquery.go','''	ctx.Write(token.Exists.String())
	ctx.Write(" (")
	exists.Subquery.Write(ctx)''','''	ctx.Write(token.Exists.String())
	ctx.Write(" (")
	if query, ok := exists.Subquery.(Select); ok {
		query.Suffix = Suffix{}
		query.Write(ctx)
	} else {
		exists.Subquery.Write(ctx)
	}''')],
needs='an EXISTS of a query with a suffix', breaks='the suffix is lost',
demo='''
	s := lk.Select("a").From("t").Where(lk.Exists(lk.Select("b").From("u").Suffix("FOR UPDATE"))).String()
	if !strings.Contains(s, "FOR UPDATE") {
		t.Fatal(s)
	}
'''),
dict(id='c23-with-name',prop='C23',edits=[('stmt/with.go','''	ctx.Write(" (")
	with.Subquery.Write(ctx)
	ctx.Write(")")''','''	if query, ok := with.Subquery.(Select); ok && !query.With.IsEmpty() && len(with.Name) == 1 {
		ctx.Write(" ")
		query.Write(ctx)
		return
	}
	ctx.Write(" (")
	with.Subquery.Write(ctx)
	ctx.Write(")")''')],
needs='a CTE of one letter with a CTE in it', breaks='no parentheses',
demo='''
	in := lk.Select("a").From("t").With(lk.With("x", lk.Select("b").From("u")))
	s := lk.Select("a").From("y").With(lk.With("y", in)).String()
	if !strings.Contains(s, "y AS (WITH") {
		t.Fatal(s)
	}
'''),
dict(id='c24-join-three',prop='C24',edits=[('stmt/select.go','''	for i := range selekt.Joins {
		ctx.Write(" ")''','''	for i := range selekt.Joins {
		if i > 0 && selekt.Joins[i].Table == selekt.Joins[i-1].Table && selekt.Joins[i].Type == types.LeftJoin {
			continue
		}
		ctx.Write(" ")''')],
needs='a left join of the same table after a join of it', breaks='a join is lost',
demo='''
	s := lk.Select("a").From("t").Join("u", "ON a = b").Join("u", "ON c = d", lk.LeftJoin).String()
	if !strings.Contains(s, `"c"`) {
		t.Fatal(s)
	}
'''),
dict(id='c24-order-limit',prop='C24',edits=[('stmt/orderby.go','''	for i := range order.Orders {
		if i != 0 {''','''	for i := range order.Orders {
		if i > 1 && order.Orders[i].Expression == order.Orders[0].Expression {
			continue
		}
		if i != 0 {''')],
needs='the third order is that of the first', breaks='an element is lost',
demo='''
	s := lk.Select("a").From("t").OrderBy(lk.Order("a"), lk.Order("b"), lk.Order("a", lk.Desc)).String()
	if !strings.Contains(s, `a DESC`) {
		t.Fatal(s)
	}
'''),
dict(id='c25-explain',prop='C25',edits=[(B,'''	switch builder.(type) {
	case Select, *Select:
		return true
	default:
		return false
	}''','''	switch query := builder.(type) {
	case Select:
		return query.query.Prefix.Prefix != "EXPLAIN"
	case *Select:
		return true
	default:
		return false
	}''')],
needs='a select with the prefix EXPLAIN', breaks='not a select any more',
demo='''
	if !builder.IsSelectBuilder(lk.Select("a").Prefix("EXPLAIN")) {
		t.Fatal("not a select")
	}
'''),
dict(id='c25-only',prop='C25',edits=[(B,'''	switch builder.(type) {
	case Update, *Update:
		return true
	default:
		return false
	}''','''	switch query := builder.(type) {
	case Update:
		return !query.query.Set.IsEmpty() || !query.query.Only
	case *Update:
		return true
	default:
		return false
	}''')],
needs='an update with ONLY, before SET', breaks='not an update any more',
demo='''
	if !builder.IsUpdateBuilder(lk.Update("t").Only()) {
		t.Fatal("not an update")
	}
'''),
dict(id='c26-blank',prop='C26',edits=[('stmt/column.go','''	return column.Name == ""''','''	return column.Name == "" && column.Alias == ""''')],
needs='an empty column with an alias', breaks='an empty name is rendered',
demo='''
	if !panics(func() { _ = lk.Select("b", lk.Column("").As("a")).From("t").String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c26-order',prop='C26',edits=[('stmt/order.go','''	return order.Expression == ""''','''	return order.Expression == "" && order.Type != types.Desc''')],
needs='an empty descending order', breaks='an empty name is rendered',
demo='''
	if !panics(func() { _ = lk.Select("a").From("t").OrderBy(lk.Column("").Desc()).String() }) {
		t.Fatal("accepted")
	}
'''),
dict(id='c27-suffix-trim',prop='C27',edits=[('stmt/suffix.go','''	ctx.Write(suffix.Suffix)''','''	ctx.Write(strings.TrimRight(suffix.Suffix, ";"))'''),('stmt/suffix.go','''import (''','''import (
	"strings"
''')],
needs='a suffix ending with a semicolon', breaks='not verbatim',
demo='''
	s := lk.Select("a").From("t").Suffix("FOR UPDATE;").String()
	if !strings.HasSuffix(s, ";") {
		t.Fatal(s)
	}
'''),
dict(id='c27-raw-question',prop='C27',edits=[(X,'''	ctx.Write(raw.Value)''','''	if std, ok := ctx.(*types.StdContext); ok && len(std.Values()) > 0 {
		ctx.Write(strings.ReplaceAll(raw.Value, "$1", "$0"))
		return
	}
	ctx.Write(raw.Value)'''),(X,'''	"fmt"
''','''	"fmt"
	"strings"
''')],
needs='a raw fragment with $1 after a value', breaks='not verbatim',
demo='''
	s, _ := lk.Delete("t").Where(lk.Condition("a").Equal(1)).And(lk.Raw("b = $1")).Query()
	if !strings.Contains(s, "b = $1") {
		t.Fatal(s)
	}
'''),
dict(id='c27-count-alias',prop='C27',edits=[('stmt/aggregate.go','''	if count.IsDistinct {''','''	if count.IsDistinct && (count.Value.Value != "*" || count.Alias == "") {''')],
needs='a distinct count of * with an alias', breaks='DISTINCT is lost',
demo='''
	s := lk.Select(lk.Count("*").Distinct(true).As("n")).From("t").String()
	if !strings.Contains(s, "DISTINCT") {
		t.Fatal(s)
	}
'''),
]
