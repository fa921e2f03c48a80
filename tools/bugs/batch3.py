X='stmt/expression.go'; B='builder/builder.go'; S='builder/select.go'
BUGS=[
dict(id='c01-zero-time',prop='C01',edits=[(X,'''	case time.Time:
		return NewValue(value)
	case *time''','''	case time.Time:
		if value.IsZero() {
			return NewRaw("'-infinity'")
		}
		return NewValue(value)
	case *time'''),(X,'''		return NewValue(value)
	case time.Time:''','''		return Value{Value: value}
	case time.Time:''')],
needs='the zero time', breaks='the text depends on the value',
demo='''
	_, args := lk.Insert("t").Set(lk.Pair("a", time.Time{})).Query()
	if len(args) != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c01-token',prop='C01',edits=[(X,'''	if value.Value == nil {
		ctx.Write("NULL")
	} else {''','''	if value.Value == nil {
		ctx.Write("NULL")
	} else if word, ok := value.Value.(string); ok && word == "now()" {
		ctx.Write(word)
	} else {''')],
needs='the value "now()"', breaks='the value is written in the text',
demo='''
	_, args := lk.Insert("t").Set(lk.Pair("a", "now()")).Query()
	if len(args) != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c02-valuer-nil',prop='C02',edits=[(X,'''		ctx.Write("NULL")
	} else {''','''		ctx.Write("NULL")
	} else if value.isNull() {
		ctx.Write("NULL")
		ctx.Bind(nil)
	} else {'''),(X,'''// Overlap performs an "overlap" comparison.
func (value Value)''','''func (value Value) isNull() bool {
	valuer, ok := value.Value.(driver.Valuer)
	if !ok {
		return false
	}
	defer func() {
		_ = recover()
	}()
	result, err := valuer.Value()
	return err == nil && result == nil
}

// Overlap performs an "overlap" comparison.
func (value Value)''')],
needs='a valuer whose value is nil', breaks='a placeholder without its place',
top='''
type null struct{}

func (null) Value() (driver.Value, error) { return nil, nil }

''',
demo='''
	q, _ := lk.Insert("t").Set(lk.Pair("a", null{})).Query()
	if strings.Contains(q, "NULL") {
		t.Fatal(q)
	}
'''),
dict(id='c03-nested-raw',prop='C03',edits=[('types/context.go','''	ctx.Write(format.Value(value))''','''	switch v := value.(type) {
	case []string:
		list := make([]string, len(v))
		for i := range v {
			list[i] = format.String(v[i])
		}
		ctx.Write("ARRAY[" + strings.Join(list, ", ") + "]")
	default:
		ctx.Write(format.Value(value))
	}''')],
needs='a slice of strings bound as one value', breaks='String() does not write the literal of the value',
demo='''
	b := lk.Select("a").From("t").Where(lk.Condition("id").Overlap([]string{"a", "b"}))
	if s := b.String(); !strings.Contains(s, format.Value([]string{"a", "b"})) {
		t.Fatal(s)
	}
'''),
dict(id='c04-empty-part',prop='C04',edits=[('stmt/stmt.go','''	for i := range split {
''','''	for i := range split {
		if split[i] == "" && len(split) > 1 {
			continue
		}
''') ,('stmt/stmt.go','''	split := strings.Split(ident, ".")''','''	split := strings.SplitN(ident, ".", -1)''')],
needs='a name with two consecutive dots', breaks='the name loses a part',
demo='''
	q, _ := lk.Select("a").From("db..t").Query()
	if !strings.Contains(q, "\\"db\\".\\"\\".\\"t\\"") {
		t.Fatal(q)
	}
'''),
dict(id='c04-control',prop='C04',edits=[('stmt/stmt.go','''	split := strings.Split(ident, ".")''','''	split := strings.Split(strings.Map(func(r rune) rune {
		if r == 0x7f || r == 0x200b {
			return -1
		}
		return r
	}, ident), ".")''')],
needs='a zero-width space in a name', breaks='the name loses a character',
demo='''
	q, _ := lk.Select("a").From("t\\u200bu").Query()
	if !strings.Contains(q, "t\\u200bu") {
		t.Fatal(q)
	}
'''),
dict(id='c05-first-set',prop='C05',edits=[(B,'''	set.Pairs = set.Pairs.Clone()

	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns :=''','''	if !set.Pairs.IsEmpty() || len(set.Pairs.Columns) != 0 {
		set.Pairs = set.Pairs.Clone()
	}

	for i := range args {
		switch value := args[i].(type) {
		case string, stmt.Column:
			columns :='''),(B,'''			panic(fmt.Sprintf("loukoum: cannot use %T as pair", value))''','''			panic(fmt.Sprintf("loukoum: cannot use %T as a pair", value))''')],
needs='two builders that set the same column, derived from an update without assignment', breaks='the first one renders the value of the second',
demo='''
	base := lk.Update("t")
	a := base.Set(lk.Pair("a", 1))
	base.Set(lk.Pair("a", 2))
	_, args := a.Query()
	if args[0] != 1 {
		t.Fatal(args)
	}
'''),
dict(id='c05-using-tail',prop='C05',edits=[('builder/update.go','''	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
	for i := range args {
		b''','''	if len(args) > 1 || len(b.query.Set.Pairs.Expressions) < 3 {
		b.query.Set.Pairs = b.query.Set.Pairs.Clone()
	}
	for i := range args {
		b'''),('builder/update.go','''		panic("loukoum: using clause requires a column or an expression")''','''		panic("loukoum: using clause requires at least an expression")''')],
needs='four calls of Using on two branches', breaks='a builder renders the value of another',
demo='''
	base := lk.Update("t").Set("a", "b", "c", "d").Using(1).Using(2).Using(3)
	a := base.Using(4)
	c := base.Using(5)
	_ = c
	_, args := a.Query()
	if args[3] != 4 {
		t.Fatal(args)
	}
'''),
dict(id='c06-pool',prop='C06',edits=[(S,'''	ctx := &types.StdContext{}
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()''','''	ctx := stdContexts.Get().(*types.StdContext)
	b.query.Write(ctx)
	return ctx.Query(), ctx.Values()'''),(S,'''// Select is a builder''','''var stdContexts = pool{ctx: &types.StdContext{}}

type pool struct {
	ctx *types.StdContext
}

// Get returns an empty context.
func (p pool) Get() interface{} {
	p.ctx.Reset()
	return p.ctx
}

// Select is a builder'''),('types/context.go','''// Values returns the positional''','''// Reset forgets what was written.
func (ctx *StdContext) Reset() {
	ctx.buffer.Reset()
	ctx.values = ctx.values[:0]
}

// Values returns the positional''')],
needs='a second call of Query', breaks='the arguments returned before change',
demo='''
	a := lk.Select("a").From("t").Where(lk.Condition("id").Equal(1))
	b := lk.Select("a").From("t").Where(lk.Condition("id").Equal(2))
	_, x := a.Query()
	b.Query()
	if x[0] != 1 {
		t.Fatal(x)
	}
'''),
dict(id='c07-distinct-order',prop='C07',edits=[(S,'''func (b Select) Distinct() Select {
	b.query.Distinct = true
''','''func (b Select) Distinct() Select {
	b.query.Distinct = b.query.DistinctOn.IsEmpty() || b.query.Distinct
''')],
needs='Distinct after DistinctOn', breaks='the order of the calls matters',
demo='''
	a, _ := lk.Select("a").Distinct().DistinctOn("b").Query()
	b, _ := lk.Select("a").DistinctOn("b").Distinct().Query()
	if a != b {
		t.Fatal(a, b)
	}
'''),
dict(id='c07-returning-conflict',prop='C07',edits=[('builder/insert.go','''	b.query.Returning = stmt.NewReturning(ToSelectExpressions(values))
''','''	if _, ok := b.query.OnConflict.Action.(stmt.ConflictNoAction); ok && len(b.query.OnConflict.Target.Columns) == 0 {
		// Nothing is returned for a conflicting row.
		return b
	}

	b.query.Returning = stmt.NewReturning(ToSelectExpressions(values))
''')],
needs='RETURNING after ON CONFLICT DO NOTHING without target', breaks='the clause is missing',
demo='''
	q, _ := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict(lk.DoNothing()).Returning("a").Query()
	if !strings.Contains(q, "RETURNING") {
		t.Fatal(q)
	}
'''),
dict(id='c08-limit-same',prop='C08',edits=[(S,'''	if !b.query.Limit.IsEmpty() {
		panic''','''	if !b.query.Limit.IsEmpty() && b.query.Limit != ToLimit(value) {
		panic''')],
needs='the same limit twice', breaks='the second definition is accepted',
demo='''
	if !panics(func() { lk.Select("a").Limit(3).Limit("3") }) {
		t.Fatal()
	}
'''),
dict(id='c09-self-compare',prop='C09',edits=[('stmt/where.go','''	left := where.Condition
	operator := NewAndOperator()
''','''	left := where.Condition
	operator := NewAndOperator()
	if on, ok := right.(OnClause); ok && on.Left == on.Right {
		// A column is always equal to itself.
		return where
	}
''')],
needs='an ON clause between a column and itself as a condition', breaks='the condition is dropped',
demo='''
	q, _ := lk.Delete("t").Where(lk.Condition("a").Equal(1)).And(lk.On("b", "b")).Query()
	if !strings.Contains(q, "b") {
		t.Fatal(q)
	}
'''),
dict(id='c09-empty-not-in',prop='C09',edits=[('stmt/where.go','''	left := where.Condition
	operator := NewAndOperator()
''','''	left := where.Condition
	operator := NewAndOperator()
	if in, ok := right.(In); ok && in.Operator.Operator == types.NotIn && in.Value.IsEmpty() {
		// Nothing is excluded.
		return where
	}
''')],
needs='an empty NOT IN list after another condition', breaks='the condition is dropped',
demo='''
	q, _ := lk.Delete("t").Where(lk.Condition("a").Equal(1)).And(lk.Condition("b").NotIn([]int{})).Query()
	if !strings.Contains(q, "b") {
		t.Fatal(q)
	}
'''),
dict(id='c10-or-or',prop='C10',edits=[('stmt/infix.go','''	operator := NewOrOperator()
	return NewInfixExpression(expression, operator, NewWrapper(value))''','''	operator := NewOrOperator()
	if right, ok := value.(InfixExpression); ok && right.Operator == NewOrOperator() {
		// OR is associative.
		return NewInfixExpression(NewInfixExpression(expression, operator, right.Left), operator, right.Right)
	}
	return NewInfixExpression(expression, operator, NewWrapper(value))''')],
needs='a group of OR as the right operand of OR', breaks='the group is lost',
demo='''
	a := lk.Condition("a").Equal(1)
	q, _ := lk.Select("a").Where(a.Or(lk.Or(a, a))).Query()
	if strings.Contains(q, "(((") {
		t.Fatal(q)
	}
'''),
dict(id='c11-lte',prop='C11',edits=[(X,'''	operator := NewComparisonOperator(types.LessThanOrEqual)
	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))''','''	operator := NewComparisonOperator(types.LessThanOrEqual)
	if date, ok := value.(time.Time); ok && date.Nanosecond() == 999999999 {
		// Same as the beginning of the next second.
		operator, value = NewComparisonOperator(types.LessThan), date.Add(1)
	}
	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))''')],
needs='the last instant of a second', breaks='another operator',
demo='''
	q, _ := lk.Select("a").Where(lk.Condition("a").LessThanOrEqual(time.Unix(1, 999999999))).Query()
	if !strings.Contains(q, "<=") {
		t.Fatal(q)
	}
'''),
dict(id='c12-prefix',prop='C12',edits=[('stmt/set.go','''			return columns[i].Name < columns[j].Name''','''			return key(columns[i].Name) < key(columns[j].Name)'''),('stmt/set.go','''// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''','''// key returns what a column is sorted by.
func key(name string) string {
	if len(name) > 16 {
		return name[:16]
	}
	return name
}

// Write exposes statement as a SQL query.
func (pairs PairContainer) Write(''')],
needs='two columns with the same 16 first characters', breaks='they are not ordered by name',
demo='''
	q, _ := lk.Update("t").Set(lk.Pair("aaaaaaaaaaaaaaaaz", 1), lk.Pair("aaaaaaaaaaaaaaaab", 1)).Query()
	if strings.Index(q, "aab") > strings.Index(q, "aaz") {
		t.Fatal(q)
	}
'''),
dict(id='c12-insertion',prop='C12',edits=[('stmt/set.go','''	pairs.Map[column] = expression
''','''	if raw, again := expression.(Raw); ok && again && raw.Value == "DEFAULT" {
		// The column keeps what was written.
		return
	}
	pairs.Map[column] = expression
''')],
needs='DEFAULT as the last write', breaks='the previous value is kept',
demo='''
	q, _ := lk.Update("t").Set(lk.Pair("a", 1)).Set(lk.Pair("a", lk.Raw("DEFAULT"))).Query()
	if !strings.Contains(q, "DEFAULT") {
		t.Fatal(q)
	}
'''),
dict(id='c13-last-row',prop='C13',edits=[(X,'''	case [][]int64:
		for i := range values {
			raws := make([]interface{}, len(values[i]))
''','''	case [][]int64:
		for i := range values {
			raws := make([]interface{}, len(values[0]))
''')],
needs='rows of int64 of several lengths', breaks='a longer row panics, a shorter one has nulls',
demo='''
	_, args := lk.Insert("t").Values([][]int64{{1, 2}, {3}}).Query()
	q, _ := lk.Insert("t").Values([][]int64{{1, 2}, {3}}).Query()
	if len(args) != 3 || strings.Contains(q, "NULL") {
		t.Fatal(q, args)
	}
'''),
dict(id='c13-bool',prop='C13',edits=[(X,'''	case [][]bool:
		for i := range values {
			raws := make([]interface{}, len(values[i]))
			for j := range values[i] {
				raws[j] = values[i][j]
			}
''','''	case [][]bool:
		raws := make([]interface{}, 8)
		for i := range values {
			if len(values[i]) > len(raws) {
				raws = make([]interface{}, len(values[i]))
			}
			raws := raws[:len(values[i])]
			for j := range values[i] {
				raws[j] = values[i][j] && j != 7
			}
''')],
needs='rows of eight booleans', breaks='the last value is false',
demo='''
	_, args := lk.Insert("t").Values([][]bool{{true, true, true, true, true, true, true, true}}).Query()
	if args[7] != true {
		t.Fatal(args)
	}
'''),
dict(id='c14-three',prop='C14',edits=[('stmt/conflict.go','''	for i := range target.Columns {
		if i != 0 {''','''	for i := range target.Columns {
		if i > 1 && target.Columns[i].Name == target.Columns[i-2].Name {
			continue
		}
		if i != 0 {''')],
needs='a target that comes twice, with another one between', breaks='a target column is dropped',
demo='''
	q, _ := lk.Insert("t").Set(lk.Pair("a", 1)).OnConflict("a", "b", "a", lk.DoNothing()).Query()
	if !strings.Contains(q, "(\\"a\\", \\"b\\", \\"a\\")") {
		t.Fatal(q)
	}
'''),
dict(id='c15-wrap',prop='C15',edits=[(B,'''		n, err := strconv.ParseInt(cast, 10, 64)
		if err == nil {
			return n, true
		}''','''		n, err := strconv.ParseInt(cast, 10, 64)
		if err == nil {
			return n, true
		}
		if u, err := strconv.ParseUint(cast, 10, 64); err == nil {
			return ToInt64(float64(u) / 2)
		}'''),(B,'''	case int64:
		return cast, true
	case int:''','''	case int64:
		return cast, true
	case float64:
		return int64(cast), cast == float64(int64(cast)) && cast > 1<<53
	case int:''')],
needs='a large float, or a string out of range', breaks='a number that is not an integer type is accepted, or another number is used',
demo='''
	if !panics(func() { lk.Select("a").Limit("18446744073709551615") }) {
		t.Fatal()
	}
'''),
dict(id='c15-underscore',prop='C15',edits=[(B,'''		n, err := strconv.ParseInt(cast, 10, 64)''','''		n, err := strconv.ParseInt(strings.ReplaceAll(cast, ",", ""), 10, 64)''')],
needs='a string with a comma', breaks='a malformed number is accepted',
demo='''
	if !panics(func() { lk.Select("a").Limit("1,5") }) {
		t.Fatal()
	}
'''),
dict(id='c16-dots',prop='C16',edits=[('parser/join.go','''				join.Table = stmt.NewTable(e.Value)''','''				join.Table = stmt.NewTable(strings.Trim(e.Value, "."))''')],
needs='a table name that begins or ends with a dot', breaks='the table is another one',
demo='''
	j, err := parser.ParseJoin("JOIN u. ON a = b")
	if err != nil || j.Table.Name != "u." {
		t.Fatal(j, err)
	}
'''),
dict(id='c16-four',prop='C16',edits=[('parser/join.go','''						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.Or), stmt.NewOnClause(left, right)) //nolint:lll''','''						clause := stmt.NewOnClause(left, right)
						previous, ok := join.Condition.(stmt.InfixExpression)
						if last, or := previous.Operator.(stmt.LogicalOperator); ok && or && last.Operator == types.Or && previous.Right == stmt.Expression(clause) {
							// The same condition twice.
							continue
						}
						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.Or), clause)''')],
needs='the same condition twice in a row after OR', breaks='one of them is lost',
demo='''
	q, _ := lk.Select("x").From("t").Join("u", "ON a = b OR c = d OR c = d").Query()
	if strings.Count(q, "OR") != 2 {
		t.Fatal(q)
	}
'''),
dict(id='c17-double',prop='C17',edits=[('parser/join.go','''				e = it.Next()
				if e.Type != token.Equals || !it.Is(token.Literal) {
					err''','''				e = it.Next()
				for it.Is(token.Equals) {
					e = it.Next()
				}
				if e.Type != token.Equals || !it.Is(token.Literal) {
					err''')],
needs='a double equal sign', breaks='a sign is lost',
demo='''
	if _, err := parser.ParseJoin("ON a == b"); err == nil {
		t.Fatal()
	}
'''),
dict(id='c18-bom',prop='C18',edits=[('lexer/lexer.go','''	// Read two runes so current and next items are both available.
	l.read()
	l.read()
''','''	// Read two runes so current and next items are both available.
	l.read()
	if l.next() == '\\ufeff' {
		l.input.Discard(0) // nolint: errcheck
		l.en = 0
		l.read()
	}
	l.read()
	if l.current() == 0 {
		l.read()
	}
''')],
needs='a byte order mark, or a NUL, at the beginning', breaks='a character is lost',
demo='''
	l := lexer.New(strings.NewReader("\\ufeffa"))
	if tok := l.Next(); tok.Value != "\\ufeff" {
		t.Fatal(tok)
	}
'''),
dict(id='c19-dashes',prop='C19',edits=[('stmt/comment.go','''	ctx.Write(newlines.Replace(comment.Comment))''','''	ctx.Write(strings.TrimPrefix(newlines.Replace(comment.Comment), "-- "))''')],
needs='a comment that starts with its own marker', breaks='the text of the comment is changed',
demo='''
	q, _ := lk.Delete("t").Comment("-- a").Query()
	if !strings.HasSuffix(q, "; -- -- a") {
		t.Fatal(q)
	}
'''),
dict(id='c19-element',prop='C19',edits=[(X,'''	case []Expression:
		for _, v := range values {
			array.Append(v)
		}
	case []interface{}:''','''	case []Expression:
		array.Values = append(array.Values, values...)
	case []interface{}:''')],
needs='a list of one expression that is a commented subquery', breaks='the comment hides the end of the statement',
demo='''
	sub := lk.Select("b").From("u").Comment("note").Statement().(stmt.Expression)
	q, _ := lk.Select("a").Where(lk.Condition("b").In([]stmt.Expression{sub})).Query()
	if strings.Contains(q, "note") {
		t.Fatal(q)
	}
'''),
dict(id='c20-nil-bytes',prop='C20',edits=[(X,'''	case [][]byte:
		for _, v := range values {
			array.Append(v)
		}''','''	case [][]byte:
		for _, v := range values {
			if v == nil {
				array.Append(nil)
				continue
			}
			array.Append(v)
		}''')],
needs='a nil byte slice in a list of byte slices', breaks='the element is not bound',
demo='''
	_, args := lk.Select("a").Where(lk.Condition("b").In([][]byte{nil, {1}})).Query()
	if len(args) != 2 {
		t.Fatal(args)
	}
'''),
dict(id='c20-sorted',prop='C20',edits=[(X,'''	case []string:
		for _, v := range values {
			array.Append(v)
		}''','''	case []string:
		for i, v := range values {
			if i > 0 && v == "" && values[i-1] == "" {
				continue
			}
			array.Append(v)
		}''')],
needs='two consecutive empty strings in a list', breaks='one of them is lost',
demo='''
	_, args := lk.Select("a").Where(lk.Condition("b").In([]string{"", "", "a"})).Query()
	if len(args) != 3 {
		t.Fatal(args)
	}
'''),
dict(id='c21-hex-long',prop='C21',edits=[('format/format.go','''	encoded := hex.EncodeToString(value)''','''	if len(value) > 64 {
		return fmt.Sprintf("decode('%s', 'hex') || %s", hex.EncodeToString(value[:64]), Bytes(value[64:]))
	}
	encoded := hex.EncodeToString(value)''')],
needs='more than 64 bytes', breaks='the encoding is not complete in one literal',
demo='''
	if s := format.Bytes(make([]byte, 65)); strings.Contains(s, "||") {
		t.Fatal(s)
	}
'''),
dict(id='c21-escape',prop='C21',edits=[('format/format.go','''		default:
			writeRune(buffer, char)
		}''','''		default:
			if char == 0x2028 || char == 0x85 {
				char = '\\n'
			}
			writeRune(buffer, char)
		}''')],
needs='a unicode line separator', breaks='the literal denotes another string',
demo='''
	if s := format.String("a\\u2028"); s != "'a\\u2028'" {
		t.Fatal(s)
	}
'''),
dict(id='c22-error',prop='C22',edits=[(X,'''	case StringEncoder:
		return NewValue(value.String())
	default:''','''	case StringEncoder:
		return NewValue(value.String())
	case error:
		return NewValue(value.Error())
	default:''')],
needs='an error as a value', breaks='a value of an unsupported type is altered',
demo='''
	if !panics(func() { lk.Condition("a").Equal(errors.New("b")) }) {
		t.Fatal()
	}
'''),
dict(id='c22-float32',prop='C22',edits=[(X,'''	case string, bool, int, int8, int16, int32, int64,
		uint, uint8, uint16, uint32, uint64, float32, float64,''','''	case float64:
		if value == float64(int32(value)) && value != 0 {
			return NewValue(int64(value))
		}
		return NewValue(value)
	case string, bool, int, int8, int16, int32, int64,
		uint, uint8, uint16, uint32, uint64, float32,''')],
needs='a float without fraction', breaks='another type is bound',
demo='''
	_, args := lk.Insert("t").Set(lk.Pair("a", 2.0)).Query()
	if args[0] != 2.0 {
		t.Fatal(args)
	}
'''),
dict(id='c23-limit',prop='C23',edits=[(X,'''		query.Comment = Comment{}
''','''		query.Comment = Comment{}
		if query.Limit.IsEmpty() && query.Offset.IsEmpty() && len(query.OrderBy.Orders) == 1 && !query.Distinct && query.DistinctOn.IsEmpty() {
			query.OrderBy = OrderBy{}
		}
'''),(X,'''	case Expression:
		return''','''	case Expression: // nolint
		return''')],
needs='a subquery with an order and no limit', breaks='the order is lost',
demo='''
	sub := lk.Select("b").From("u").OrderBy(lk.Order("c"))
	q, _ := lk.Select("a").Where(lk.Condition("b").In(sub)).Query()
	if !strings.Contains(q, "ORDER") {
		t.Fatal(q)
	}
'''),
dict(id='c24-cte-same',prop='C24',edits=[(S,'''	b.query.With = stmt.NewWith(queries)
	return b''','''	if len(queries) > 1 && queries[0].Name == queries[len(queries)-1].Name {
		// The last definition wins.
		queries = queries[1:]
	}

	b.query.With = stmt.NewWith(queries)
	return b''')],
needs='two queries of the same name', breaks='the first one is lost',
demo='''
	sub := lk.Select("b").From("u")
	q, _ := lk.Select("a").With(lk.With("c", sub)).With(lk.With("c", sub)).Query()
	if strings.Count(q, "c AS") != 2 {
		t.Fatal(q)
	}
'''),
dict(id='c24-groups',prop='C24',edits=[('stmt/groupby.go','''	for i := range group.Columns {
		if i''','''	for i := range group.Columns {
		if i > 0 && i%32 == 0 {
			ctx.Write(" ")
			group.Columns[i].Write(ctx)
			continue
		}
		if i''')],
needs='more than 32 columns', breaks='a comma is missing',
demo='''
	list := make([]string, 33)
	for i := range list {
		list[i] = "a"
	}
	q, _ := lk.Select("a").GroupBy(list).Query()
	if strings.Count(q, ",") != 32 {
		t.Fatal(q)
	}
'''),
dict(id='c25-empty',prop='C25',edits=[(B,'''	switch builder.(type) {
	case Insert, *Insert:
		return true
	default:''','''	switch b := builder.(type) {
	case Insert:
		return true
	case *Insert:
		return len(b.query.Columns) == 0 || !b.query.Values.IsEmpty()
	default:''')],
needs='a pointer to an insert with columns but no values', breaks='it is not an insert',
demo='''
	b := lk.Insert("t").Columns("a")
	if !builder.IsInsertBuilder(&b) {
		t.Fatal()
	}
'''),
dict(id='c26-between',prop='C26',edits=[('stmt/between.go','''		between.From == nil || between.To == nil || between.From.IsEmpty() || between.To.IsEmpty()''','''		between.From == nil || between.To == nil || between.From.IsEmpty()'''),('stmt/between.go','''	return between.Identifier.IsEmpty() || between.Operator.IsEmpty() || between.And.IsEmpty() ||''','''	return between.Identifier.IsEmpty() || between.Operator.IsEmpty() ||''')],
needs='an empty upper bound', breaks='the operand is missing',
demo='''
	if !panics(func() { _ = lk.Select("a").Where(lk.Condition("b").Between(1, lk.Raw(""))).String() }) {
		t.Fatal()
	}
'''),
dict(id='c26-element',prop='C26',edits=[(X,'''	for i, value := range values {
		if i > 0 {
			ctx.Write(", ")
		}
		writeOperand(ctx, NewWrapper(value))
	}''','''	for i, value := range values {
		if i > 0 && value.IsEmpty() {
			continue
		}
		if i > 0 {
			ctx.Write(", ")
		}
		writeOperand(ctx, NewWrapper(value))
	}'''),(X,'''	array := Array{}
	for _, value := range values {
		array.Append(value)
	}''','''	array := Array{}
	for i := range values {
		array.Append(values[i])
	}''')],
needs='an empty fragment in a list', breaks='the element is dropped',
demo='''
	if !panics(func() { _ = lk.Select("a").Where(lk.Condition("b").In(1, lk.Raw(""), 2)).String() }) {
		t.Fatal()
	}
'''),
dict(id='c27-table-as',prop='C27',edits=[('stmt/table.go','''	table.Alias = alias
	return table''','''	return NewTableAlias(table.Name, alias)''')],
needs='Only before As', breaks='ONLY is lost',
demo='''
	q, _ := lk.Select("a").From(lk.Table("t").Only().As("u")).Query()
	if !strings.Contains(q, "ONLY") {
		t.Fatal(q)
	}
'''),
dict(id='c27-alias-same',prop='C27',edits=[('stmt/column.go','''	if column.Alias != "" {
		ctx.Write(" ")''','''	if column.Alias != "" && column.Alias != column.Name {
		ctx.Write(" ")''')],
needs='an alias equal to the name', breaks='the alias is dropped',
demo='''
	q, _ := lk.Select(lk.Column("a").As("a")).Query()
	if !strings.Contains(q, "AS") {
		t.Fatal(q)
	}
'''),
dict(id='c27-count-as',prop='C27',edits=[('stmt/aggregate.go','''	count.Alias = alias
	return count''','''	count = Count{Value: count.Value, Alias: alias}
	return count''')],
needs='Distinct before As', breaks='DISTINCT is lost',
demo='''
	q, _ := lk.Select(lk.Count("a").Distinct(true).As("n")).Query()
	if !strings.Contains(q, "DISTINCT") {
		t.Fatal(q)
	}
'''),
]
