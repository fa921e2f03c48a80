From e7a6434e7daa41f9dcf07f77cbea04747c2b579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 01/33] fix: quote identifiers as SQL delimited identifiers,
 not as Go strings

---
 stmt/stmt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..3f4372e 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -16,11 +15,14 @@ type Statement interface {
 	Write(ctx types.Context)
 }
 
+// quote returns given identifier as a list of delimited identifiers separated by a dot.
+// As defined by SQL, a double quote inside a delimited identifier is escaped by another one,
+// and any other character stands for itself.
 func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
 }
-- 
2.43.0


From 7135f0ae03e7d26844a914035f0bea3a9281b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 02/33] fix: keep a comment on the line of its comment marker

---
 stmt/comment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..f16ad9d 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -10,6 +12,9 @@ type Comment struct {
 	Comment string
 }
 
+// newlines replaces the characters that terminate a SQL line comment.
+var newlines = strings.NewReplacer("\n", " ", "\r", " ")
+
 // NewComment returns a new Comment instance.
 func NewComment(comment string) Comment {
 	return Comment{
@@ -24,7 +29,7 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	ctx.Write(newlines.Replace(comment.Comment))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From bb394bee766f5457554b8be43d44b5223daf2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 03/33] fix: order SET pairs by column name, then by alias

---
 stmt/set.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..026f90e 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -129,8 +129,10 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 	}
 
 	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+		if pairs.Columns[i].Name != pairs.Columns[j].Name {
+			return pairs.Columns[i].Name < pairs.Columns[j].Name
+		}
+		return pairs.Columns[i].Alias < pairs.Columns[j].Alias
 	})
 
 	columns := make([]Column, 0, len(pairs.Columns))
-- 
2.43.0


From b3e06b3135004ceef00b1d41443ad4915964e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 04/33] fix: sort a copy of SET columns instead of the
 container's own slice

---
 stmt/set.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 026f90e..b8e03fc 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -128,23 +128,23 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
-	sort.Slice(pairs.Columns, func(i, j int) bool {
-		if pairs.Columns[i].Name != pairs.Columns[j].Name {
-			return pairs.Columns[i].Name < pairs.Columns[j].Name
+	columns := make([]Column, len(pairs.Columns))
+	copy(columns, pairs.Columns)
+
+	sort.Slice(columns, func(i, j int) bool {
+		if columns[i].Name != columns[j].Name {
+			return columns[i].Name < columns[j].Name
 		}
-		return pairs.Columns[i].Alias < pairs.Columns[j].Alias
+		return columns[i].Alias < columns[j].Alias
 	})
 
-	columns := make([]Column, 0, len(pairs.Columns))
-	expressions := make([]Expression, 0, len(pairs.Columns))
+	expressions := make([]Expression, 0, len(columns))
 
-	for i := range pairs.Columns {
-		column := pairs.Columns[i]
-		expression, ok := pairs.Map[column]
+	for i := range columns {
+		expression, ok := pairs.Map[columns[i]]
 		if !ok {
 			panic("loukoum: invalid state for stmt.PairContainer")
 		}
-		columns = append(columns, column)
 		expressions = append(expressions, expression)
 	}
 
-- 
2.43.0


From c0a27d7a9ca98e4bf8fcea0d00fcf40a92dbbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 05/33] fix: do not share SET pairs between derived builders

---
 builder/builder.go |  3 +++
 builder/update.go  |  1 +
 stmt/set.go        | 14 ++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..6013b0c 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -322,6 +322,9 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 
 // MergeSet merges new pairs into existing ones (last write wins).
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	// The given set may be shared with another builder.
+	set.Pairs = set.Pairs.Clone()
+
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..6b936b6 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
diff --git a/stmt/set.go b/stmt/set.go
index b8e03fc..eea2f8d 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,20 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy of current instance that can be modified independently.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := PairContainer{
+		Mode:        pairs.Mode,
+		Map:         make(map[Column]Expression, len(pairs.Map)),
+		Columns:     append([]Column{}, pairs.Columns...),
+		Expressions: append([]Expression{}, pairs.Expressions...),
+	}
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From 18da7c5639b087364c1bfb1409f30d1959c0b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 06/33] fix: do not share list clauses between derived builders

---
 builder/builder.go |  4 ++--
 builder/select.go  | 36 +++++++++++++++++++++++-------------
 builder/update.go  | 10 +++++-----
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 6013b0c..46e325e 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -80,7 +80,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column{}, array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -122,7 +122,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
-			return array
+			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
diff --git a/builder/select.go b/builder/select.go
index 276e0c1..7c0e28e 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,9 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.appendJoin(join)
 }
 
 func (b Select) join2(args []interface{}) Select {
@@ -104,9 +102,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.appendJoin(join)
 }
 
 func (b Select) join3(args []interface{}) Select {
@@ -123,19 +119,28 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	return b.appendJoin(join)
+}
+
+// appendJoin adds given join to a new list: the current one may be shared with another builder.
+func (b Select) appendJoin(join stmt.Join) Select {
+	joins := make([]stmt.Join, 0, len(b.query.Joins)+1)
+	joins = append(joins, b.query.Joins...)
+	joins = append(joins, join)
+
+	b.query.Joins = joins
 
 	return b
 }
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
+	// Allocate a new list: the current one may be shared with another builder.
+	queries := make([]stmt.WithQuery, 0, len(b.query.With.Queries)+len(args))
+	queries = append(queries, b.query.With.Queries...)
+	queries = append(queries, args...)
 
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	b.query.With = stmt.NewWith(queries)
 	return b
 }
 
@@ -197,7 +202,12 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	// Allocate a new list: the current one may be shared with another builder.
+	list := make([]stmt.Order, 0, len(b.query.OrderBy.Orders)+len(orders))
+	list = append(list, b.query.OrderBy.Orders...)
+	list = append(list, orders...)
+
+	b.query.OrderBy = stmt.NewOrderBy(list)
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index 6b936b6..47b35b2 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,12 +54,12 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
+	// Allocate a new list: the current one may be shared with another builder.
+	queries := make([]stmt.WithQuery, 0, len(b.query.With.Queries)+len(args))
+	queries = append(queries, b.query.With.Queries...)
+	queries = append(queries, args...)
 
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	b.query.With = stmt.NewWith(queries)
 	return b
 }
 
-- 
2.43.0


From eb703d22830839dff393d8a92f50fb504cc8dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 07/33] fix: reject a map that assigns the same column twice

---
 builder/builder.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 46e325e..f91727e 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -333,12 +333,14 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 				set.Pairs.Set(columns[y])
 			}
 		case map[string]interface{}:
+			columns := make(map[stmt.Column]struct{}, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				set.Pairs.Add(toUniqueColumn(columns, k), stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Map:
+			columns := make(map[stmt.Column]struct{}, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				set.Pairs.Add(toUniqueColumn(columns, k), stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Pair:
 			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
@@ -349,6 +351,17 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 	return set
 }
 
+// toUniqueColumn returns the column of given map key. Since a map has no order, there is no last write when
+// several of its keys are the same column.
+func toUniqueColumn(columns map[stmt.Column]struct{}, key interface{}) stmt.Column {
+	column := ToColumn(key)
+	if _, ok := columns[column]; ok {
+		panic(fmt.Sprintf("loukoum: column %s is defined several times in the same map", column.Name))
+	}
+	columns[column] = struct{}{}
+	return column
+}
+
 // ToSet takes either a types.Map or slice of types.Pair and returns a stmt.Set instance.
 func ToSet(args []interface{}) stmt.Set {
 	set := stmt.NewSet()
-- 
2.43.0


From 38a88d4e2a5ebd3b3d56f57c56bd57c9dee17de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 08/33] fix: reject an identifier that has no SQL
 representation

---
 stmt/expression.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..d0cbbe9 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -78,12 +78,23 @@ func (identifier Identifier) Write(ctx types.Context) {
 		ctx.Write(quote(t))
 	case Raw:
 		t.Write(ctx)
+	default:
+		panic(fmt.Sprintf("loukoum: cannot use %T as identifier", t))
 	}
 }
 
 // IsEmpty returns true if statement is undefined.
 func (identifier Identifier) IsEmpty() bool {
-	return identifier.Identifier == ""
+	switch t := identifier.Identifier.(type) {
+	case nil:
+		return true
+	case string:
+		return t == ""
+	case Raw:
+		return t.IsEmpty()
+	default:
+		return false
+	}
 }
 
 // Contains performs a "contains" comparison.
-- 
2.43.0


From 6334a88ac3b68f19ecb13ad5338b3e1f69efd812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 09/33] fix: reject an undefined condition instead of dropping
 it

---
 stmt/having.go | 8 ++++++--
 stmt/where.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..0bb449d 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -13,6 +13,10 @@ type Having struct {
 
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: a having clause expects at least one condition")
+	}
+
 	return Having{
 		Condition: expression,
 	}
@@ -36,7 +40,7 @@ func (having Having) IsEmpty() bool {
 
 // And appends given Expression using AND as logical operator.
 func (having Having) And(right Expression) Having {
-	if having.IsEmpty() {
+	if having.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -48,7 +52,7 @@ func (having Having) And(right Expression) Having {
 
 // Or appends given Expression using OR as logical operator.
 func (having Having) Or(right Expression) Having {
-	if having.IsEmpty() {
+	if having.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
diff --git a/stmt/where.go b/stmt/where.go
index 8757fe3..1a63f82 100644
--- a/stmt/where.go
+++ b/stmt/where.go
@@ -12,6 +12,10 @@ type Where struct {
 
 // NewWhere returns a new Where instance.
 func NewWhere(expression Expression) Where {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: a where clause expects at least one condition")
+	}
+
 	return Where{
 		Condition: NewWrapper(expression),
 	}
@@ -35,7 +39,7 @@ func (where Where) IsEmpty() bool {
 
 // And appends given Expression using AND as logical operator.
 func (where Where) And(right Expression) Where {
-	if where.IsEmpty() {
+	if where.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -47,7 +51,7 @@ func (where Where) And(right Expression) Where {
 
 // Or appends given Expression using OR as logical operator.
 func (where Where) Or(right Expression) Where {
-	if where.IsEmpty() {
+	if where.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
-- 
2.43.0


From 4c61bbbef97bb7edcee0af10c584d77bfc27f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 10/33] fix: guard DISTINCT ON, suffix and prefix by their own
 clause

---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index 7c0e28e..0f0970f 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -233,7 +233,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -244,7 +244,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From d711ef1980ebcd1fdee3a0ab009ba1b7fcb86f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 11/33] fix: keep a from clause given as argument and reject
 its undefined tables

---
 builder/builder.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index f91727e..cfb29d4 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -200,25 +200,32 @@ func ToTables(values []interface{}) []stmt.Table {
 
 // ToFrom takes an empty interfaces and returns a From instance.
 func ToFrom(args ...interface{}) stmt.From {
-	from := stmt.From{}
-
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			if value.IsEmpty() {
+				panic("loukoum: given from clause is undefined")
+			}
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
 	}
 
-	from = stmt.NewFrom(tables)
+	for i := range tables {
+		if tables[i] == nil || tables[i].IsEmpty() {
+			panic("loukoum: given table is undefined")
+		}
+	}
+
+	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
 	}
-- 
2.43.0


From c380edae07b6c61a236c21b5ef09f8be38ba71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 12/33] fix: recognise builders given by value in builder kind
 predicates

---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index cfb29d4..7947120 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // ToColumn takes an empty interfaces and returns a Column instance.
-- 
2.43.0


From 6c5bdc322ef5280407cf8bda051e408d2443a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 13/33] fix: validate limit and offset objects and accept uint

---
 builder/builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 7947120..d4acdfd 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -324,6 +324,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 		return int64(cast), true
 	case int32:
 		return int64(cast), true
+	case uint:
+		if uint64(cast) <= math.MaxInt64 {
+			return int64(cast), true
+		}
 	case uint8:
 		return int64(cast), true
 	case uint16:
@@ -397,6 +401,9 @@ func ToSet(args []interface{}) stmt.Set {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
+		if value.Count <= 0 {
+			panic("loukoum: limit must be a positive integer")
+		}
 		return value
 	default:
 		limit, ok := ToInt64(value)
@@ -414,6 +421,9 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
+		if value.Start < 0 {
+			panic("loukoum: offset must be a non-negative integer")
+		}
 		return value
 	default:
 		offset, ok := ToInt64(value)
-- 
2.43.0


From cdc7a986fdbcfb898c0a77cd25a57747e57bd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 14/33] fix: a join without condition is undefined

---
 stmt/join.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..aeca110 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -49,7 +49,8 @@ func (join Join) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (join Join) IsEmpty() bool {
-	return join.Type == "" || join.Table.IsEmpty() || join.Condition.IsEmpty()
+	return join.Type == "" || join.Table.IsEmpty() ||
+		join.Condition == nil || join.Condition.IsEmpty()
 }
 
 // Ensure that Join is a Statement
-- 
2.43.0


From a394fed6db3a0d758811cc52daf8d12d954e07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 15/33] fix: do not read past the last token

---
 lexer/iteratee.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/iteratee.go b/lexer/iteratee.go
index 174115d..394f4bd 100644
--- a/lexer/iteratee.go
+++ b/lexer/iteratee.go
@@ -23,8 +23,11 @@ func (it Iteratee) Is(next token.Type) bool {
 	return it.list[it.cursor].Type == next
 }
 
-// Next returns the next token.
+// Next returns the next token, or an EOF token if there is no token left.
 func (it *Iteratee) Next() token.Token {
+	if !it.HasNext() {
+		return token.New(token.EOF, "")
+	}
 	element := it.list[it.cursor]
 	it.cursor++
 	return element
-- 
2.43.0


From 45ff0d8cffbdd28268bfe675015e93325da800ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 16/33] fix: reject a join string whose condition cannot be
 parsed entirely

---
 parser/join.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..83b0216 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -58,7 +58,7 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 			}
 
 			// Parse join condition
-			if it.Is(token.Equals) {
+			if it.Is(token.Equals) && join.Condition == nil {
 
 				// Left condition
 				left := stmt.NewColumn(e.Value)
@@ -136,13 +136,28 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 			continue
 		}
 
-		// Ignore invalid token and stop iterating.
-		break
+		// Ignore invalid token and stop iterating, unless it would discard a part of the condition.
+		for ; e.Type != token.EOF; e = it.Next() {
+			if isConditionToken(e.Type) {
+				err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+				return stmt.Join{}, err
+			}
+		}
 	}
 
 	return join, nil
 }
 
+// isConditionToken returns true if given token type can only be a part of a join condition.
+func isConditionToken(kind token.Type) bool {
+	switch kind {
+	case token.Equals, token.And, token.Or, token.Not, token.Illegal:
+		return true
+	default:
+		return false
+	}
+}
+
 // MustParseJoin will execute ParseJoin and panic on error.
 func MustParseJoin(subquery string) stmt.Join {
 	join, err := ParseJoin(subquery)
-- 
2.43.0


From 52bedf8c005d811e60e9d22d476302879c174d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 17/33] fix: parenthesise a subquery used as operand of any
 expression

---
 stmt/between.go | 8 ++++----
 stmt/having.go  | 2 +-
 stmt/infix.go   | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/stmt/between.go b/stmt/between.go
index dd25e4d..2c91735 100644
--- a/stmt/between.go
+++ b/stmt/between.go
@@ -18,9 +18,9 @@ func NewBetween(identifier Identifier, from, to Expression) Between {
 	return Between{
 		Identifier: identifier,
 		Operator:   NewComparisonOperator(types.Between),
-		From:       from,
+		From:       NewWrapper(from),
 		And:        NewAndOperator(),
-		To:         to,
+		To:         NewWrapper(to),
 	}
 }
 
@@ -29,9 +29,9 @@ func NewNotBetween(identifier Identifier, from, to Expression) Between {
 	return Between{
 		Identifier: identifier,
 		Operator:   NewComparisonOperator(types.NotBetween),
-		From:       from,
+		From:       NewWrapper(from),
 		And:        NewAndOperator(),
-		To:         to,
+		To:         NewWrapper(to),
 	}
 }
 
diff --git a/stmt/having.go b/stmt/having.go
index 0bb449d..e7a83f5 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -18,7 +18,7 @@ func NewHaving(expression Expression) Having {
 	}
 
 	return Having{
-		Condition: expression,
+		Condition: NewWrapper(expression),
 	}
 }
 
diff --git a/stmt/infix.go b/stmt/infix.go
index 09841b9..ba545d3 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -15,9 +15,9 @@ type InfixExpression struct {
 // NewInfixExpression returns a new InfixExpression instance.
 func NewInfixExpression(left Expression, operator Operator, right Expression) InfixExpression {
 	return InfixExpression{
-		Left:     left,
+		Left:     NewWrapper(left),
 		Operator: operator,
-		Right:    right,
+		Right:    NewWrapper(right),
 	}
 }
 
-- 
2.43.0


From e7bd0c3d080580c056ab3192963bbfc0a9d3aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 18/33] fix: parenthesise a subquery used as element of a list

---
 stmt/expression.go | 29 +++++++++++++++++++++--------
 stmt/set.go        |  9 ++++-----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index d0cbbe9..ee179b3 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -377,7 +377,11 @@ func (array ArrayList) Write(ctx types.Context) {
 			ctx.Write(", ")
 		}
 		ctx.Write("(")
-		value.Write(ctx)
+		if row, ok := value.(Array); ok {
+			writeList(ctx, row.Values)
+		} else {
+			NewWrapper(value).Write(ctx)
+		}
 		ctx.Write(")")
 	}
 }
@@ -491,11 +495,21 @@ func (Array) expression() {}
 
 // Write exposes statement as a SQL query.
 func (array Array) Write(ctx types.Context) {
-	for i, value := range array.Values {
+	// A single subquery is the list itself.
+	if len(array.Values) == 1 {
+		array.Values[0].Write(ctx)
+		return
+	}
+	writeList(ctx, array.Values)
+}
+
+// writeList writes given expressions separated by a comma.
+func writeList(ctx types.Context, values []Expression) {
+	for i, value := range values {
 		if i > 0 {
 			ctx.Write(", ")
 		}
-		value.Write(ctx)
+		NewWrapper(value).Write(ctx)
 	}
 }
 
@@ -617,11 +631,10 @@ func (Call) expression() {}
 func (call Call) Write(ctx types.Context) {
 	ctx.Write(call.function)
 	ctx.Write("(")
-	for i, arg := range call.args {
-		if i > 0 {
-			ctx.Write(", ")
-		}
-		arg.Write(ctx)
+	if len(call.args) == 1 {
+		call.args[0].Write(ctx)
+	} else {
+		writeList(ctx, call.args)
 	}
 	ctx.Write(")")
 }
diff --git a/stmt/set.go b/stmt/set.go
index eea2f8d..b470449 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -207,11 +207,10 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 	ctx.Write(" = ")
 
 	ctx.Write("(")
-	for i := range pairs.Expressions {
-		if i != 0 {
-			ctx.Write(", ")
-		}
-		pairs.Expressions[i].Write(ctx)
+	if len(pairs.Expressions) == 1 {
+		pairs.Expressions[0].Write(ctx)
+	} else {
+		writeList(ctx, pairs.Expressions)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From 0ad86dd4b8bb95060aa2ff81399b73896305df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 19/33] fix: do not quote the default column list of a select

---
 builder/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/select.go b/builder/select.go
index 0f0970f..bacf8ba 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -44,7 +44,7 @@ func (b Select) Distinct() Select {
 // Columns adds result columns to the query.
 func (b Select) Columns(args ...interface{}) Select {
 	if len(args) == 0 {
-		args = []interface{}{"*"}
+		args = []interface{}{stmt.NewRaw("*")}
 	}
 
 	b.query.Expressions = ToSelectExpressions(args)
-- 
2.43.0


From 5966ede2e837b039be45a5772cad190d6e7a0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 20/33] fix: bind a nil time pointer as NULL

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index ee179b3..7c48524 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -32,6 +32,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From cd480421f85462a72fbf7e80d897921c0f0fef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 21/33] fix: do not write the comment of a subquery inside
 another statement

---
 stmt/expression.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 7c48524..8c90231 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -22,7 +22,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 	switch value := arg.(type) {
 	case Expression:
-		return value
+		return embed(value)
 	case string, bool, int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64, float32, float64,
 		[]byte, driver.Valuer, []int64, []string, pgtype.RangeValuer,
@@ -42,7 +42,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
-		return expression
+		return embed(expression)
 	case Int64Encoder:
 		return NewValue(value.Int64())
 	case BoolEncoder:
@@ -56,6 +56,16 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 }
 
+// embed prepares an expression to be written inside another statement.
+// A line comment would hide the end of that statement, and its semicolon would terminate it.
+func embed(expression Expression) Expression {
+	if query, ok := expression.(Select); ok {
+		query.Comment = Comment{}
+		return query
+	}
+	return expression
+}
+
 // ----------------------------------------------------------------------------
 // Identifier
 // ----------------------------------------------------------------------------
@@ -578,7 +588,7 @@ func NewWrapper(arg Expression) Expression {
 	switch value := arg.(type) {
 	case Select:
 		return &Wrapper{
-			Value: value,
+			Value: embed(value),
 		}
 	case Exists:
 		return &Wrapper{
@@ -622,9 +632,13 @@ type Call struct {
 
 // NewCall returns a new Call.
 func NewCall(function string, args ...Expression) Call {
+	list := make([]Expression, 0, len(args))
+	for i := range args {
+		list = append(list, embed(args[i]))
+	}
 	return Call{
 		function: function,
-		args:     args,
+		args:     list,
 	}
 }
 
-- 
2.43.0


From 829992cb792f97c05ae6db71022834eb802ce390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 22/33] fix: reject an ON CONFLICT update without any value

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..67755b2 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -94,6 +94,9 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one value")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		default:
-- 
2.43.0


From 38798d1d0c1a352fbfc403bd6c1a0207127a8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 23/33] fix: reject undefined columns given as a slice of
 select expressions

---
 builder/builder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index d4acdfd..e423505 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -138,6 +138,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i] == nil || array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -151,7 +156,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
-				expressions = append(expressions, stmt.NewColumn(array[i]))
+				expressions = append(expressions, ToColumn(array[i]))
 			}
 			return expressions
 		}
-- 
2.43.0


From ee668642b328a72861d2a16d8a5225581d41eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 24/33] fix: reject undefined WITH queries and ORDER BY
 expressions

---
 builder/select.go | 12 ++++++++++++
 builder/update.go |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index bacf8ba..f35e24c 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -135,6 +135,12 @@ func (b Select) appendJoin(join stmt.Join) Select {
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	// Allocate a new list: the current one may be shared with another builder.
 	queries := make([]stmt.WithQuery, 0, len(b.query.With.Queries)+len(args))
 	queries = append(queries, b.query.With.Queries...)
@@ -202,6 +208,12 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	for i := range orders {
+		if orders[i].IsEmpty() {
+			panic("loukoum: given order by clause is undefined")
+		}
+	}
+
 	// Allocate a new list: the current one may be shared with another builder.
 	list := make([]stmt.Order, 0, len(b.query.OrderBy.Orders)+len(orders))
 	list = append(list, b.query.OrderBy.Orders...)
diff --git a/builder/update.go b/builder/update.go
index 47b35b2..1b39e15 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,6 +54,12 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	// Allocate a new list: the current one may be shared with another builder.
 	queries := make([]stmt.WithQuery, 0, len(b.query.With.Queries)+len(args))
 	queries = append(queries, b.query.With.Queries...)
-- 
2.43.0


From 1460f6eb3b41a36d5fba931a26e72f007f1495c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 25/33] fix: reject a VALUES row without value and keep a row
 made of a single nil

---
 stmt/expression.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 8c90231..d2d3e03 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -325,15 +325,33 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 		arraylist.Values = []Expression{NewArrayExpression(values...)}
 
 	}
+	// A single nil is the only value of its row.
+	if len(values) == 1 && values[0] == nil {
+		arraylist.Values = []Expression{newRow(values)}
+	}
+	for i := range arraylist.Values {
+		if arraylist.Values[i].IsEmpty() {
+			panic("loukoum: a row requires at least one value")
+		}
+	}
 	return arraylist
 }
 
+// newRow creates a row with one element per given value.
+func newRow(values []interface{}) Array {
+	row := Array{}
+	for i := range values {
+		row.Append(values[i])
+	}
+	return row
+}
+
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	arraylist := ArrayList{}
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, newRow(values[i]))
 		}
 	case [][]string:
 		for i := range values {
@@ -342,7 +360,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 				raws[j] = values[i][j]
 			}
 
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]int:
 		for i := range values {
@@ -350,7 +368,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]int64:
 		for i := range values {
@@ -358,7 +376,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]bool:
 		for i := range values {
@@ -366,7 +384,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	case [][]Expression:
 		for i := range values {
@@ -374,7 +392,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws))
 		}
 	}
 
-- 
2.43.0


From 0eae36309b7ef1aa9d0a90a8264966132fb9aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 26/33] fix: reject an undefined expression instead of writing
 nothing for it

---
 stmt/expression.go | 33 +++++++++++++++++++--------------
 stmt/set.go        |  8 ++------
 stmt/subquery.go   |  8 ++++----
 3 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index d2d3e03..5b8d0f7 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -408,10 +408,11 @@ func (array ArrayList) Write(ctx types.Context) {
 			ctx.Write(", ")
 		}
 		ctx.Write("(")
-		if row, ok := value.(Array); ok {
-			writeList(ctx, row.Values)
+		if row, ok := value.(Array); ok && len(row.Values) == 1 {
+			// Unlike a list, a row cannot be replaced by a subquery.
+			writeOperand(ctx, NewWrapper(row.Values[0]))
 		} else {
-			NewWrapper(value).Write(ctx)
+			value.Write(ctx)
 		}
 		ctx.Write(")")
 	}
@@ -526,22 +527,30 @@ func (Array) expression() {}
 
 // Write exposes statement as a SQL query.
 func (array Array) Write(ctx types.Context) {
-	// A single subquery is the list itself.
-	if len(array.Values) == 1 {
-		array.Values[0].Write(ctx)
-		return
-	}
 	writeList(ctx, array.Values)
 }
 
 // writeList writes given expressions separated by a comma.
 func writeList(ctx types.Context, values []Expression) {
+	// A single subquery is the list itself.
+	if len(values) == 1 {
+		writeOperand(ctx, values[0])
+		return
+	}
 	for i, value := range values {
 		if i > 0 {
 			ctx.Write(", ")
 		}
-		NewWrapper(value).Write(ctx)
+		writeOperand(ctx, NewWrapper(value))
+	}
+}
+
+// writeOperand writes given expression, which must be defined.
+func writeOperand(ctx types.Context, value Expression) {
+	if value == nil || value.IsEmpty() {
+		panic("loukoum: expression is undefined")
 	}
+	value.Write(ctx)
 }
 
 // IsEmpty returns true if statement is undefined.
@@ -666,11 +675,7 @@ func (Call) expression() {}
 func (call Call) Write(ctx types.Context) {
 	ctx.Write(call.function)
 	ctx.Write("(")
-	if len(call.args) == 1 {
-		call.args[0].Write(ctx)
-	} else {
-		writeList(ctx, call.args)
-	}
+	writeList(ctx, call.args)
 	ctx.Write(")")
 }
 
diff --git a/stmt/set.go b/stmt/set.go
index b470449..73f519f 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -189,7 +189,7 @@ func (pairs PairContainer) WriteAssociative(ctx types.Context) {
 
 		columns[i].Write(ctx)
 		ctx.Write(" = ")
-		expressions[i].Write(ctx)
+		writeOperand(ctx, expressions[i])
 	}
 }
 
@@ -207,11 +207,7 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 	ctx.Write(" = ")
 
 	ctx.Write("(")
-	if len(pairs.Expressions) == 1 {
-		pairs.Expressions[0].Write(ctx)
-	} else {
-		writeList(ctx, pairs.Expressions)
-	}
+	writeList(ctx, pairs.Expressions)
 	ctx.Write(")")
 }
 
diff --git a/stmt/subquery.go b/stmt/subquery.go
index a0096e7..b9fb0ad 100644
--- a/stmt/subquery.go
+++ b/stmt/subquery.go
@@ -28,8 +28,8 @@ func (exists Exists) Write(ctx types.Context) {
 }
 
 // IsEmpty returns true if statement is undefined.
-func (Exists) IsEmpty() bool {
-	return false
+func (exists Exists) IsEmpty() bool {
+	return exists.Subquery == nil || exists.Subquery.IsEmpty()
 }
 
 func (Exists) selectExpression() {}
@@ -62,8 +62,8 @@ func (nexists NotExists) Write(ctx types.Context) {
 }
 
 // IsEmpty returns true if statement is undefined.
-func (NotExists) IsEmpty() bool {
-	return false
+func (nexists NotExists) IsEmpty() bool {
+	return nexists.Subquery == nil || nexists.Subquery.IsEmpty()
 }
 
 func (NotExists) selectExpression() {}
-- 
2.43.0


From cdc51928355e70cfbb1258ab0b128a7b663f3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 27/33] fix: reject an INSERT set without any value

---
 builder/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 67755b2..59f5b77 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -117,6 +117,9 @@ func (b Insert) Set(args ...interface{}) Insert {
 	}
 
 	pairs := ToSet(args).Pairs
+	if pairs.IsEmpty() {
+		panic("loukoum: insert set clause requires at least one value")
+	}
 	columns, expressions := pairs.Values()
 
 	array := stmt.NewArrayListExpression(expressions)
-- 
2.43.0


From 37c48f96d519b6b598bf01cf0ca2bfd122f558a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 28/33] fix: reject arguments given after the action of ON
 CONFLICT

---
 builder/insert.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/builder/insert.go b/builder/insert.go
index 59f5b77..c7a2776 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -84,12 +84,14 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 	}
 
 	for i := range args {
+		if b.query.OnConflict.Action != nil {
+			panic("loukoum: on conflict action must be the last argument")
+		}
 		switch value := args[i].(type) {
 		case string, stmt.Column:
 			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
 		case stmt.ConflictNoAction:
 			b.query.OnConflict.Action = value
-			return b
 		case stmt.ConflictUpdateAction:
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
@@ -98,13 +100,16 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 				panic("loukoum: on conflict update clause requires at least one value")
 			}
 			b.query.OnConflict.Action = value
-			return b
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as on conflict clause", args[i]))
 		}
 	}
 
-	panic("loukoum: on conflict clause requires an action")
+	if b.query.OnConflict.Action == nil {
+		panic("loukoum: on conflict clause requires an action")
+	}
+
+	return b
 }
 
 // Set is a wrapper that defines columns and values clauses using a pair.
-- 
2.43.0


From 2c5247f6c951ebbd83b072f88716cb8d1c10ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 29/33] fix: do not take a NUL character for the end of the
 input

---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9488a9d..c979adf 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -8,8 +8,8 @@ import (
 )
 
 const (
-	// EOF sentinel
-	eof = 0
+	// EOF sentinel, which is not a valid character.
+	eof = rune(-1)
 	// Newline sentinel
 	newline = '\n'
 )
-- 
2.43.0


From 5092755f3ce4838c28304ac9ebfef75b4343b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 30/33] fix: parenthesise a subquery used as only argument of a
 function

---
 stmt/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 5b8d0f7..f5f87d6 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -537,6 +537,11 @@ func writeList(ctx types.Context, values []Expression) {
 		writeOperand(ctx, values[0])
 		return
 	}
+	writeElements(ctx, values)
+}
+
+// writeElements writes given expressions separated by a comma, each subquery in its own parenthesis.
+func writeElements(ctx types.Context, values []Expression) {
 	for i, value := range values {
 		if i > 0 {
 			ctx.Write(", ")
@@ -675,7 +680,7 @@ func (Call) expression() {}
 func (call Call) Write(ctx types.Context) {
 	ctx.Write(call.function)
 	ctx.Write("(")
-	writeList(ctx, call.args)
+	writeElements(ctx, call.args)
 	ctx.Write(")")
 }
 
-- 
2.43.0


From ee58085cf33814edf092516701ae5323fa158f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 31/33] fix: do not drop the values given after a slice of rows

---
 stmt/expression.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index f5f87d6..929d82b 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -319,11 +319,13 @@ type ArrayList struct {
 
 // NewArrayListExpression creates a new Expression using a list of values.
 func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyclo
-	// We pass only one argument and it's a slice or an expression.
-	arraylist := toArrayList(values[0])
+	arraylist := ArrayList{}
+	// We pass only one argument and it's a slice of rows.
+	if len(values) == 1 {
+		arraylist = toArrayList(values[0])
+	}
 	if len(arraylist.Values) == 0 {
 		arraylist.Values = []Expression{NewArrayExpression(values...)}
-
 	}
 	// A single nil is the only value of its row.
 	if len(values) == 1 && values[0] == nil {
-- 
2.43.0


From f3c5afeb40ba960b9fc0cc78494c802908adb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 32/33] fix: write the ONLY modifier of an update once

---
 stmt/update.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stmt/update.go b/stmt/update.go
index 8b09560..da1f71d 100644
--- a/stmt/update.go
+++ b/stmt/update.go
@@ -38,7 +38,8 @@ func (update Update) Write(ctx types.Context) {
 
 	ctx.Write(token.Update.String())
 
-	if update.Only {
+	// The table may have its own ONLY modifier.
+	if update.Only && !update.Table.only {
 		ctx.Write(" ")
 		ctx.Write(token.Only.String())
 	}
-- 
2.43.0


From 12d6ce235d8141ee87bbe30d992f6dd9fd8ba080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 33/33] fix: reject a call without function name

---
 stmt/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 929d82b..75429d0 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -680,6 +680,9 @@ func (Call) expression() {}
 
 // Write writes call to ctx.
 func (call Call) Write(ctx types.Context) {
+	if call.IsEmpty() {
+		panic("loukoum: call is undefined")
+	}
 	ctx.Write(call.function)
 	ctx.Write("(")
 	writeElements(ctx, call.args)
@@ -729,7 +732,7 @@ func (call Call) Overlap(what interface{}) InfixExpression {
 
 // IsEmpty reports whether call is empty.
 func (call Call) IsEmpty() bool {
-	return false
+	return call.function == ""
 }
 
 // Ensure that Value is an Expression
-- 
2.43.0

