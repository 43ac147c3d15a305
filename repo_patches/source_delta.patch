From ecab636202bd110635e6c8d4ad7de8b4ad40f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:55 +0000
Subject: [PATCH 01/68] fix: reset the parser error state on every ParseString
 call

A parser that had once reported a syntax error kept failing every later
query, because the error listener was created only once per parser.
---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..2fad0c7 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -66,6 +66,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
 	tree := parser.parser.Parse()
-- 
2.43.0


From a0d0c5b3b94169ac098cebcd53be8fc91cea1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:48 +0000
Subject: [PATCH 02/68] fix: return an error instead of panicking on
 unsupported statement forms

INSERT ... SELECT, INSERT ... DEFAULT VALUES, UPDATE with a column name
list and an index on an expression are accepted by the grammar, but
panicked in the visitor with a nil pointer dereference.
---
 sql/parser/sqlite/parser_antlr.go         |  3 ++
 sql/parser/sqlite/parser_antlr_visitor.go | 51 +++++++++++++++++++++--
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 2fad0c7..c0473b5 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -76,6 +76,9 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	}
 
 	v := tree.Accept(newANTLRVisitor())
+	if err, ok := v.(error); ok {
+		return nil, fmt.Errorf("%s (%w)", queryString, err)
+	}
 	stmtList, ok := v.(query.StatementList)
 	if !ok {
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..3daf75b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -16,6 +16,7 @@ package sqlite
 
 import (
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/errors"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
 	"github.com/cybergarage/go-sqlparser/sql/query"
@@ -35,13 +36,20 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
-	return newStatementListWith(ctx.AllSql_stmt_list())
+	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	if err != nil {
+		return err
+	}
+	return stmtList
 }
 
-func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.StatementList {
+func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
 		for _, sqlStmt := range ctx.AllSql_stmt() {
+			if err := checkSupportedStatement(sqlStmt); err != nil {
+				return nil, err
+			}
 			stmt := newStatementWith(sqlStmt)
 			if stmt == nil {
 				continue
@@ -49,7 +57,44 @@ func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.Statement
 			stmtList = append(stmtList, stmt)
 		}
 	}
-	return stmtList
+	return stmtList, nil
+}
+
+// checkSupportedStatement returns an error when the statement is grammatically valid but includes a construct which can not be represented by the query package.
+func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
+	checkIndexedColumns := func(columns []antlr.IIndexed_columnContext) error {
+		for _, column := range columns {
+			if column.Column_name() == nil {
+				return errors.NewErrNotSupported(column.GetText())
+			}
+		}
+		return nil
+	}
+	if stmt := ctx.Create_table_stmt(); stmt != nil {
+		for _, tblConst := range stmt.AllTable_constraint() {
+			if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
+				if err := checkIndexedColumns(primaryDef.AllIndexed_column()); err != nil {
+					return err
+				}
+			}
+		}
+	}
+	if stmt := ctx.Create_index_stmt(); stmt != nil {
+		return checkIndexedColumns(stmt.AllIndexed_column())
+	}
+	if stmt := ctx.Insert_stmt(); stmt != nil {
+		if stmt.Values_clause() == nil {
+			return errors.NewErrNotSupported(stmt.GetText())
+		}
+	}
+	if stmt := ctx.Update_stmt(); stmt != nil {
+		for _, set := range stmt.AllUpdate_column_set() {
+			if set.Column_name() == nil {
+				return errors.NewErrNotSupported(set.GetText())
+			}
+		}
+	}
+	return nil
 }
 
 func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
-- 
2.43.0


From 84a0a32eadb2009ac1dea906388fc1a7c6725e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:24 +0000
Subject: [PATCH 03/68] fix: reject unsupported value expressions in INSERT and
 UPDATE

An unsupported expression in a VALUES row was skipped and shifted the
following values to the wrong columns, and an unsupported expression in
an UPDATE assignment was dropped.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 3daf75b..11aa0ff 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -86,12 +86,22 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		if stmt.Values_clause() == nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
+		for _, row := range stmt.Values_clause().AllValue_row() {
+			for _, expr := range row.AllExpr() {
+				if expr.Comparison_expr() == nil && expr.Literal_value() == nil && expr.Bind_param() == nil {
+					return errors.NewErrNotSupported(expr.GetText())
+				}
+			}
+		}
 	}
 	if stmt := ctx.Update_stmt(); stmt != nil {
 		for _, set := range stmt.AllUpdate_column_set() {
 			if set.Column_name() == nil {
 				return errors.NewErrNotSupported(set.GetText())
 			}
+			if v := set.Expr(); v.Literal_value() == nil && v.Bind_param() == nil && v.Arithmetic_expr() == nil {
+				return errors.NewErrNotSupported(set.GetText())
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 5db01e1eaf68b9b9ce65e5ee45ed024fbb910bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:02 +0000
Subject: [PATCH 04/68] fix: reject INSERT rows whose value count differs from
 the column list

The values without a corresponding column name were silently dropped.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 11aa0ff..de3e29b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -87,10 +87,17 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
 		for _, row := range stmt.Values_clause().AllValue_row() {
+			valueCnt := 0
 			for _, expr := range row.AllExpr() {
 				if expr.Comparison_expr() == nil && expr.Literal_value() == nil && expr.Bind_param() == nil {
 					return errors.NewErrNotSupported(expr.GetText())
 				}
+				if expr.Comparison_expr() == nil {
+					valueCnt++
+				}
+			}
+			if 0 < valueCnt && valueCnt != len(stmt.AllColumn_name()) {
+				return errors.NewErrNotSupported(row.GetText())
 			}
 		}
 	}
-- 
2.43.0


From c892d9b605597bf0c4382c4fb86b6b186a3ee495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:56 +0000
Subject: [PATCH 05/68] fix: reject unsupported WHERE conditions in UPDATE and
 DELETE

A WHERE expression which can not be represented was silently dropped, so
that e.g. DELETE FROM t WHERE a IN (1) was parsed as an unconditional
delete.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index de3e29b..07ddcc6 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -70,6 +70,12 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		}
 		return nil
 	}
+	checkWhereExpr := func(expr antlr.IExprContext) error {
+		if expr != nil && newExprWith(expr) == nil {
+			return errors.NewErrNotSupported(expr.GetText())
+		}
+		return nil
+	}
 	if stmt := ctx.Create_table_stmt(); stmt != nil {
 		for _, tblConst := range stmt.AllTable_constraint() {
 			if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
@@ -110,6 +116,10 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 				return errors.NewErrNotSupported(set.GetText())
 			}
 		}
+		return checkWhereExpr(stmt.GetWhereExpr())
+	}
+	if stmt := ctx.Delete_stmt(); stmt != nil {
+		return checkWhereExpr(stmt.GetWhereExpr())
 	}
 	return nil
 }
-- 
2.43.0


From 82e74da2c1523b3fefb1440f249d444a36564870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:57 +0000
Subject: [PATCH 06/68] fix: keep only the column name of ALTER TABLE DROP
 COLUMN

The DROP and COLUMN keywords were included in the column name.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 07ddcc6..426e83d 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -289,7 +289,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(ctx.Column_name().GetText())))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From 05fc2773471ddf6186f3919c17d98aa85c856893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:39 +0000
Subject: [PATCH 07/68] fix: print GROUP BY before ORDER BY and LIMIT

Select.String() returned a query which can not be parsed when GROUP BY is
combined with ORDER BY or LIMIT.
---
 sql/query/select.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 04e2f67..4708e57 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -137,6 +137,10 @@ func (stmt *selectStmt) String() string {
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
 	}
+	groupBy := stmt.groupBy.String()
+	if 0 < len(groupBy) {
+		strs = append(strs, groupBy)
+	}
 	orderBy := stmt.orderBy.String()
 	if 0 < len(orderBy) {
 		strs = append(strs, orderBy)
@@ -145,9 +149,5 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(limit) {
 		strs = append(strs, limit)
 	}
-	groupBy := stmt.groupBy.String()
-	if 0 < len(groupBy) {
-		strs = append(strs, groupBy)
-	}
 	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From e605f33c947fb0cb87d9fea322dbe67efeb5adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:05 +0000
Subject: [PATCH 08/68] fix: sort in ascending order when ORDER BY has no
 direction

An ordering term without ASC or DESC was dropped, though ascending is the
default order of SQL.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 426e83d..646da69 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -602,7 +602,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-- 
2.43.0


From 3bc2459115c437f34251a8194b3517f8df322dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:27 +0000
Subject: [PATCH 09/68] fix: parse LIMIT offset, limit in the right order

The first expression of the comma form is the offset, but it was used as
the limit.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 646da69..3b8cef1 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -619,6 +619,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 
 	if ctx := ctx.Limit_stmt(); ctx != nil {
 		limits := ctx.AllExpr()
+		if ctx.COMMA() != nil && 1 < len(limits) { // LIMIT offset, limit
+			limits[0], limits[1] = limits[1], limits[0]
+		}
 		if 0 < len(limits) {
 			var limit uint
 			err := safecast.ToUint(limits[0].GetText(), &limit)
-- 
2.43.0


From 5532825e118f2b2895d9718d7ff4c2186ac39e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:23 +0000
Subject: [PATCH 10/68] fix: escape and unescape string literals without losing
 quotes

UnEscapeString trimmed all leading and trailing quotes of the value and
did not resolve doubled quotes, and EscapeString did not double the quotes
in the value.
---
 sql/util/strings/strings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..cd2d831 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -31,12 +31,19 @@ func JoinWithComma(elems []string) string {
 
 // UnEscapeString returns an unescaped string.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	if len(s) < 2 || s[0] != s[len(s)-1] {
+		return s
+	}
+	switch quote := s[:1]; quote {
+	case "'", "\"":
+		return strings.ReplaceAll(s[1:len(s)-1], quote+quote, quote)
+	}
+	return s
 }
 
 // EscapeString returns an escaped string.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return fmt.Sprintf("'%v'", strings.ReplaceAll(s, "'", "''"))
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From 6a841291fb242f4d7a3bb09a2c4d185539254eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 11/68] fix: quote the source file name of COPY

Copy.String() returned a query which can not be parsed when the source is a
quoted file name.
---
 sql/query/copy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/query/copy.go b/sql/query/copy.go
index 49945b4..8f1059e 100644
--- a/sql/query/copy.go
+++ b/sql/query/copy.go
@@ -129,9 +129,13 @@ func (stmt *copyStmt) String() string {
 	if 0 < len(stmt.columns) {
 		strs = append(strs, "("+strings.JoinWithComma(stmt.columns.Names())+")")
 	}
+	source := stmt.Source()
+	if !strings.EqualFold(source, "STDIN") {
+		source = strings.EscapeString(source)
+	}
 	strs = append(strs,
 		"FROM",
-		stmt.Source(),
+		source,
 		stmt.format.String(),
 	)
 	return strings.JoinWithSpace(strs)
-- 
2.43.0


From 8b56ccfba399d35dc15a0317fa1bb03e1dcc85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:31 +0000
Subject: [PATCH 12/68] fix: keep the data type of a column defined with
 precision and scale

DECIMAL(10, 2) was parsed as a column of unknown type, because the size was
not a single number.
---
 sql/query/column_def.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql/query/column_def.go b/sql/query/column_def.go
index c4f37c7..a43f337 100644
--- a/sql/query/column_def.go
+++ b/sql/query/column_def.go
@@ -17,6 +17,7 @@ package query
 import (
 	"fmt"
 	"strconv"
+	std_strings "strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
@@ -75,7 +76,8 @@ func NewDataDefFromStrings(strs []string) (ColumnDef, error) {
 	dl := -1
 	if 4 <= len(strs) {
 		if strs[1] == "(" || strs[3] == ")" {
-			v, err := strconv.Atoi(strs[2])
+			size, _, _ := std_strings.Cut(strs[2], ",") // (precision, scale)
+			v, err := strconv.Atoi(size)
 			if err != nil {
 				return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
 			}
-- 
2.43.0


From f8af8f61dd6fb82e5349431ab1d27d23c460c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:15 +0000
Subject: [PATCH 13/68] fix: keep the schema name of INSERT and DROP TABLE

The schema qualifier of the table name was dropped, so that the statement
pointed to another table.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 3b8cef1..596ac04 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -234,9 +234,13 @@ func newDropTableWith(ctx antlr.IDrop_table_stmtContext) query.DropTable {
 		ifExists = query.NewIfExistsWith(true)
 	}
 	tbls := query.NewTables()
-	for _, tbl := range ctx.AllTable_name() {
+	for n, tbl := range ctx.AllTable_name() {
 		tblName := strings.UnEscapeNameString(tbl.GetText())
-		tbls = append(tbls, query.NewTableWith(tblName))
+		tblOpts := []query.TableOption{}
+		if schema := ctx.Schema_name(); n == 0 && schema != nil {
+			tblOpts = append(tblOpts, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
+		}
+		tbls = append(tbls, query.NewTableWith(tblName, tblOpts...))
 	}
 	return query.NewDropTableWith(tbls, ifExists)
 }
@@ -494,7 +498,11 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 
 func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
-	tbl := query.NewTableWith(tblName)
+	tblOpts := []query.TableOption{}
+	if schema := ctx.Schema_name(); schema != nil {
+		tblOpts = append(tblOpts, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
+	}
+	tbl := query.NewTableWith(tblName, tblOpts...)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
-- 
2.43.0


From e7a5fbf3708d30e81783bd54f6c09caf4a608c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:04 +0000
Subject: [PATCH 14/68] fix: do not join aliases to table and column names

SELECT b AS c FROM t AS x was parsed as a query for the column bASc of the
table tASx.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 596ac04..6a20427 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -538,7 +538,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable()))
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
 		name := set.Column_name().GetText()
@@ -588,7 +588,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 				if schema := tbl.Schema_name(); schema != nil {
 					ops = append(ops, query.WithTableSchema(schema.GetText()))
 				}
-				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+				tbls = append(tbls, query.NewTableWith(newTableNameWith(tbl), ops...))
 			}
 		}
 		if w := parentQuery.GetWhereExpr(); w != nil {
@@ -650,6 +650,18 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	return query.NewSelectWith(sels, tbls, where, opts...)
 }
 
+// newTableNameWith returns the table name with the schema name but without the alias.
+func newTableNameWith(ctx interface {
+	Schema_name() antlr.ISchema_nameContext
+	Table_name() antlr.ITable_nameContext
+}) string {
+	name := ctx.Table_name().GetText()
+	if schema := ctx.Schema_name(); schema != nil {
+		name = schema.GetText() + query.TableNameSep + name
+	}
+	return name
+}
+
 func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	expr := ctx.Expr()
 	if expr != nil {
@@ -668,11 +680,15 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 			), nil
 		}
 	}
-	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
+	name := ctx.GetText()
+	if expr != nil {
+		name = expr.GetText()
+	}
+	return query.NewColumnWithOptions(query.WithColumnName(name)), nil
 }
 
 func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable()))
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
-- 
2.43.0


From 5ee8d72b2134ab482cdb20732e5ba739fe94360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:12 +0000
Subject: [PATCH 15/68] fix: bind parameters to their own placeholders only

The parameters were replaced one by one in the whole query text, so that a
placeholder in a string literal or in an already bound value was replaced,
$1 matched the prefix of $10, and a quote in a string value terminated the
string literal.
---
 sql/stmt/bind_impl.go       | 90 ++++++++++++++++++++++++++++++++-----
 sql/stmt/bind_param_impl.go |  3 +-
 2 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..b259efc 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,6 +16,7 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
@@ -60,24 +61,89 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 	return stmt
 }
 
-// Statement returns the statement with the bound parameters.
-func (stmt *bindStmt) Statements() ([]Statement, error) {
-	q := stmt.query
+// bindQuery returns the query with the bound parameters. A standard placeholder takes the next
+// parameter, and a numbered placeholder takes the parameter of the number. The placeholders in
+// string literals, quoted identifiers and comments are not replaced.
+func (stmt *bindStmt) bindQuery() (string, error) {
+	params := make([]string, len(stmt.params))
 	for n, param := range stmt.params {
 		s, err := param.String()
 		if err != nil {
-			return nil, err
+			return "", err
 		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
-			continue
+		params[n] = s
+	}
+
+	isDigit := func(c byte) bool {
+		return '0' <= c && c <= '9'
+	}
+
+	q := stmt.query
+	bound := make([]bool, len(params))
+	nextParam := 0
+	var sb strings.Builder
+	for i := 0; i < len(q); {
+		end := i + 1
+		switch {
+		case strings.HasPrefix(q[i:], "--"):
+			end = skipTo(q, i+2, "\n")
+		case strings.HasPrefix(q[i:], "/*"):
+			end = skipTo(q, i+2, "*/")
+		case q[i] == '\'' || q[i] == '"' || q[i] == '`':
+			end = skipTo(q, i+1, q[i:i+1])
+		case q[i] == '[':
+			end = skipTo(q, i+1, "]")
+		case q[i] == '?' || q[i] == '$':
+			for end < len(q) && isDigit(q[end]) {
+				end++
+			}
+			n := nextParam
+			if 1 < (end - i) {
+				no, err := strconv.Atoi(q[i+1 : end])
+				if err != nil {
+					return "", err
+				}
+				n = no - 1
+			} else if q[i] == '?' {
+				nextParam++
+			} else {
+				n = -1
+			}
+			if 0 <= n && n < len(params) {
+				sb.WriteString(" " + params[n] + " ") // Keeps the parameter a separate token
+				bound[n] = true
+				i = end
+				continue
+			}
 		}
-		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
-			continue
+		sb.WriteString(q[i:end])
+		i = end
+	}
+
+	for n, ok := range bound {
+		if !ok {
+			placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
+			return "", fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, params[n])
 		}
-		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
+	}
+
+	return sb.String(), nil
+}
+
+// skipTo returns the offset after the first terminator at or after the specified offset.
+func skipTo(q string, from int, term string) int {
+	n := strings.Index(q[from:], term)
+	if n < 0 {
+		return len(q)
+	}
+	return from + n + len(term)
+}
+
+// Statement returns the statement with the bound parameters.
+func (stmt *bindStmt) Statements() ([]Statement, error) {
+	q, err := stmt.bindQuery()
+	if err != nil {
+		return nil, err
 	}
 	stmts, err := sql.NewParser().ParseString(q)
 	if err != nil {
diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..605bc15 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -34,7 +35,7 @@ func NewBindParam(v any) BindParam {
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
 	case string:
-		return "'" + v + "'", nil
+		return strings.EscapeString(v), nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
-- 
2.43.0


From 9d60496b115690d2a21382fbea0cf489de7abd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:34 +0000
Subject: [PATCH 16/68] fix: bind nil and byte parameters as SQL literals

A nil parameter was bound as an empty text and bytes were bound without
quotes, which can not be parsed.
---
 sql/stmt/bind_param_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index 605bc15..c29241e 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -15,6 +15,7 @@
 package stmt
 
 import (
+	"fmt"
 	"strconv"
 	"time"
 
@@ -34,6 +35,10 @@ func NewBindParam(v any) BindParam {
 // String returns the string representation of the bind parameter.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
+	case nil:
+		return "NULL", nil
+	case []byte:
+		return fmt.Sprintf("X'%X'", v), nil
 	case string:
 		return strings.EscapeString(v), nil
 	case time.Time:
-- 
2.43.0


From 8b67de40a1e73909a4f4c01f107aee64c31298b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 17/68] fix: look up functions by their exact name

---
 sql/fn/aggr_func.go     | 13 ++++++-------
 sql/fn/executor_func.go | 42 ++++++++++++++++++++---------------------
 sql/fn/names.go         |  6 ++++++
 3 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/sql/fn/aggr_func.go b/sql/fn/aggr_func.go
index a55bf99..662b29f 100644
--- a/sql/fn/aggr_func.go
+++ b/sql/fn/aggr_func.go
@@ -16,7 +16,6 @@ package fn
 
 import (
 	"fmt"
-	"strings"
 )
 
 // AggregatorOption is a function that configures the Aggregator.
@@ -39,17 +38,17 @@ func WithAggregatorGroupBys(groups ...GroupBy) AggregatorOption {
 
 // NewAggregatorForName creates an Aggregator instance for the specified function name.
 func NewAggregatorForName(name string, opts ...AggregatorOption) (Aggregator, error) {
-	upperName := strings.ToUpper(name)
+	upperName := baseFunctionName(name)
 	switch {
-	case strings.HasPrefix(upperName, SumFunctionName):
+	case upperName == SumFunctionName:
 		return NewSum(opts...)
-	case strings.HasPrefix(upperName, AvgFunctionName):
+	case upperName == AvgFunctionName:
 		return NewAvg(opts...)
-	case strings.HasPrefix(upperName, MinFunctionName):
+	case upperName == MinFunctionName:
 		return NewMin(opts...)
-	case strings.HasPrefix(upperName, MaxFunctionName):
+	case upperName == MaxFunctionName:
 		return NewMax(opts...)
-	case strings.HasPrefix(upperName, CountFunctionName):
+	case upperName == CountFunctionName:
 		return NewCount(opts...)
 	}
 	return nil, fmt.Errorf("%w aggregator: %s", ErrNotSupported, name)
diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index ad95c77..b074a2b 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -20,51 +20,51 @@ import (
 
 // NewExecutorForName returns a function executor with the specified name.
 func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
-	upperName := strings.ToUpper(name)
+	upperName := baseFunctionName(name)
 	var ex Executor
 	switch {
 	// Math.
-	case strings.HasPrefix(upperName, AbsFunctionName):
+	case upperName == AbsFunctionName:
 		ex = NewAbs(opts...)
-	case strings.HasPrefix(upperName, FloorFunctionName):
+	case upperName == FloorFunctionName:
 		ex = NewFloor(opts...)
-	case strings.HasPrefix(upperName, CeilFunctionName):
+	case upperName == CeilFunctionName:
 		ex = NewCeil(opts...)
-	case strings.HasPrefix(upperName, RoundFunctionName):
+	case upperName == RoundFunctionName:
 		ex = NewRound(opts...)
-	case strings.HasPrefix(upperName, SqrtFunctionName):
+	case upperName == SqrtFunctionName:
 		ex = NewSqrt(opts...)
-	case strings.HasPrefix(upperName, LogFunctionName):
+	case upperName == LogFunctionName:
 		ex = NewLog(opts...)
-	case strings.HasPrefix(upperName, Log10FunctionName):
+	case upperName == Log10FunctionName:
 		ex = NewLog10(opts...)
-	case strings.HasPrefix(upperName, ExpFunctionName):
+	case upperName == ExpFunctionName:
 		ex = NewExp(opts...)
-	case strings.HasPrefix(upperName, PowerFunctionName):
+	case upperName == PowerFunctionName:
 		ex = NewPower(opts...)
-	case strings.HasPrefix(upperName, ModFunctionName):
+	case upperName == ModFunctionName:
 		ex = NewMod(opts...)
-	case strings.HasPrefix(upperName, SinFunctionName):
+	case upperName == SinFunctionName:
 		ex = NewSin(opts...)
-	case strings.HasPrefix(upperName, CosFunctionName):
+	case upperName == CosFunctionName:
 		ex = NewCos(opts...)
-	case strings.HasPrefix(upperName, TanFunctionName):
+	case upperName == TanFunctionName:
 		ex = NewTan(opts...)
-	case strings.HasPrefix(upperName, RandFunctionName):
+	case upperName == RandFunctionName:
 		ex = NewRand(opts...)
-	case strings.HasPrefix(upperName, PiFunctionName):
+	case upperName == PiFunctionName:
 		ex = NewPI(opts...)
 	// String.
-	case strings.HasPrefix(upperName, UpperFunctionName):
+	case upperName == UpperFunctionName:
 		ex = NewUpper(opts...)
-	case strings.HasPrefix(upperName, LowerFunctionName):
+	case upperName == LowerFunctionName:
 		ex = NewLower(opts...)
-	case strings.HasPrefix(upperName, TrimFunctionName):
+	case upperName == TrimFunctionName:
 		ex = NewTrim(opts...)
 	// Time.
-	case strings.HasPrefix(upperName, CurrentTimestampFunctionName):
+	case upperName == CurrentTimestampFunctionName:
 		ex = NewCurrentTimestamp(opts...)
-	case strings.HasPrefix(upperName, NowFunctionName):
+	case upperName == NowFunctionName:
 		ex = NewNow(opts...)
 	// Airthmetic.
 	case strings.EqualFold(upperName, AddOperatorID):
diff --git a/sql/fn/names.go b/sql/fn/names.go
index 83a8021..0b8da16 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -99,6 +99,12 @@ func RegisteredFunctionNames() []string {
 	return registeredFunctionNames
 }
 
+// baseFunctionName returns the upper-cased function name without its argument list.
+func baseFunctionName(name string) string {
+	base, _, _ := strings.Cut(name, "(")
+	return strings.ToUpper(strings.TrimSpace(base))
+}
+
 // IsRegisteredFunction checks if the given name matches any registered function name pattern.
 func IsRegisteredFunction(name string) bool {
 	if len(name) == 0 {
-- 
2.43.0


From 3a060896fe90afc8fecd50d9cd10734a983599be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:51 +0000
Subject: [PATCH 18/68] fix: return an error for modulo by zero instead of
 panicking

---
 sql/fn/arith_func.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index dcdc182..23110c0 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -85,7 +85,11 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
-			return (float64(int(v1) % int(v2))), nil
+			iv2 := int(v2)
+			if iv2 == 0 {
+				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
+			}
+			return (float64(int(v1) % iv2)), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From d31bbe6786d7dd1be37c08de3979addf5c8e93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 19/68] fix: accept zero as the argument of SQRT

---
 sql/fn/math_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..832fb9b 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -86,7 +86,7 @@ func NewSqrt(opts ...ExecutorOption) Executor {
 				return nil, newErrInvalidArguments(SqrtFunctionName, args)
 			}
 			v := args[0]
-			if v <= 0 {
+			if v < 0 {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Sqrt(v), nil
-- 
2.43.0


From 284ec2a20d05979ed99d5c1a9599af2b6f383d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:53 +0000
Subject: [PATCH 20/68] fix: start MIN from positive infinity

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..2b48937 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From 245ea69cfde1e1067792947a96c0905d73b06d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:20 +0000
Subject: [PATCH 21/68] fix: classify functions regardless of the case of their
 name

---
 sql/fn/func_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..ff7840d 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -49,7 +49,7 @@ func NewFunction(opts ...FunctionOption) Function {
 func WithFunctionName(name string) FunctionOption {
 	return func(fn *function) {
 		fn.SetName(name)
-		t, err := NewFunctionTypeForName(name)
+		t, err := NewFunctionTypeForName(fn.name)
 		if err == nil {
 			fn.typ = t
 		}
-- 
2.43.0


From cfd8fba216eafd3f7258c7ef03cb59644f73b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:47 +0000
Subject: [PATCH 22/68] fix: keep the aggregator given to a function

---
 sql/fn/func_impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index ff7840d..27fad05 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -75,6 +75,7 @@ func WithFunctionExecutor(executor Executor) FunctionOption {
 // WithFunctionAggregator sets the function aggregator.
 func WithFunctionAggregator(aggregator Aggregator) FunctionOption {
 	return func(fn *function) {
+		fn.aggregator = aggregator
 		fn.name = aggregator.Name()
 		fn.typ = AggregateFunction
 	}
-- 
2.43.0


From a714a7590638eee52c33e835e4aa9eddb67cee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:24 +0000
Subject: [PATCH 23/68] fix: do not merge groups whose keys include the
 delimiter

---
 sql/fn/groupby.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..e7c3029 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -56,7 +57,8 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 		if err != nil {
 			return "", err
 		}
-		groupBySet = append(groupBySet, NewGroupBy(groupKeyStr))
+		// Quotes the keys so that a key which includes the delimiter is not confused with other keys.
+		groupBySet = append(groupBySet, NewGroupBy(strconv.Quote(groupKeyStr)))
 	}
 	return NewGroupBySet(groupBySet...), nil
 }
-- 
2.43.0


From 43df95f1a5d6c115c386b9fdb4cb6e69ac6b7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:39 +0000
Subject: [PATCH 24/68] fix: aggregate maps with their group by columns

---
 sql/fn/aggr_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..4b7cfb3 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -282,6 +282,14 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	groupBys, _ := aggr.GroupBys()
+	for _, groupBy := range groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
-- 
2.43.0


From 2671d74ea5de1abd4623f7083e11633d1b7bce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:05 +0000
Subject: [PATCH 25/68] fix: copy the group keys of aggregated rows

---
 sql/fn/aggr_impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 4b7cfb3..911d68a 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -232,7 +233,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	groupBys, isGrouping := aggr.GroupBys()
 	if isGrouping {
 		groupKeysCnt := len(groupBys)
-		groupKeys := row[:groupKeysCnt]
+		groupKeys := slices.Clone(row[:groupKeysCnt])
 		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 		if err != nil {
 			return err
-- 
2.43.0


From 1a96c36c6b375e2c4c094f6af20b698f58244f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:23 +0000
Subject: [PATCH 26/68] fix: return aggregated groups in the order of
 appearance

---
 sql/fn/aggr_impl.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 911d68a..fe9a67d 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -40,6 +40,7 @@ type aggrImpl struct {
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupKeys   map[GroupBySet][]any
+	groupOrder  []GroupBySet
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
 	resetFunc   AggrResetFunc
@@ -61,6 +62,7 @@ func newAggr() *aggrImpl {
 		aggrs:       make([]float64, 0),
 		counts:      0,
 		groupKeys:   make(map[GroupBySet][]any),
+		groupOrder:  make([]GroupBySet, 0),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
 		resetFunc:   nil,
@@ -204,6 +206,7 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	aggr.counts = 0
 
+	aggr.groupOrder = make([]GroupBySet, 0)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
 	aggr.groupCounts = make(map[GroupBySet]int)
 
@@ -239,6 +242,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			return err
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupKeys[groupSetKey] = groupKeys
 			aggr.groupCounts[groupSetKey] = 0
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
@@ -339,10 +343,8 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	rows := make([]Row, 0)
 	_, isGrouping := aggr.GroupBys()
 	if isGrouping {
-		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupAggrs))
-		for groupSetKey := range aggr.groupAggrs {
-			groupSetKeys = append(groupSetKeys, groupSetKey)
-		}
+		// Returns the groups in the order in which they appeared unless an order is specified.
+		groupSetKeys := slices.Clone(aggr.groupOrder)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
-- 
2.43.0


From abf51eda61b2d8eee30278c728d849147876a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:01 +0000
Subject: [PATCH 27/68] fix: skip exactly the grouping columns when combining
 aggregators

---
 sql/fn/aggr_set.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..3112498 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -73,14 +73,20 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 		reseltSets = append(reseltSets, result)
 	}
 
+	// groupCount returns the number of the leading grouping columns, which are included in all result sets.
+	groupCount := func(n int) int {
+		groupBys, _ := (*aggrSet)[n].GroupBys()
+		return len(groupBys)
+	}
+
 	columns := []string{}
 	for n, resultSet := range reseltSets {
 		switch n {
 		case 0:
 			columns = append(columns, resultSet.Columns()...)
 		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
+			// Skip the grouping columns as they are already included
+			columns = append(columns, resultSet.Columns()[groupCount(n):]...)
 		}
 	}
 
@@ -100,14 +106,10 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				if len(rows) <= rowNo {
 					return nil, fmt.Errorf("row %d not found in result set %d", rowNo, resultSetNo)
 				}
-				switch len(row) {
-				case 0:
+				if len(row) == 0 {
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
-				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
 				}
+				rows[rowNo] = append(rows[rowNo], row[groupCount(resultSetNo):]...) // Skip the grouping columns
 			}
 			rowNo++
 		}
-- 
2.43.0


From 9494b9819c29ffc27744160b168b884b6936bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:00 +0000
Subject: [PATCH 28/68] fix: do not return rows beyond the limit of a result
 set

---
 sql/query/response/resultset/resultset_impl.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..521d4ad 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -121,13 +121,18 @@ func (rs *resultset) Next() bool {
 	if rs.rowCursor < rs.offset {
 		rs.rowCursor = rs.offset
 	}
-	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	rowCount := uint(len(rs.rows))
+	rowEnd := rowCount
+	if 0 < rs.limit && rs.offset < rowCount && rs.limit < (rowCount-rs.offset) {
+		rowEnd = rs.offset + rs.limit
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	if rowEnd <= rs.rowCursor {
+		// Moves the cursor past the last row so that no row is returned any more.
+		rs.rowCursor = rowCount + 1
+		return false
+	}
+	rs.rowCursor++
+	return true
 }
 
 // Row returns the current row.
-- 
2.43.0


From 54da8b3ffe6887b58fc12fb4c5ee70df6afa2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:27 +0000
Subject: [PATCH 29/68] fix: return the rows of a result set without schema as
 they are

---
 sql/query/response/resultset/resultset_impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 521d4ad..6ddc69c 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -141,6 +141,9 @@ func (rs *resultset) Row() (Row, error) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
+	if rs.schema == nil {
+		return row, nil
+	}
 	return NewRowFromObject(rs.schema, row.Object())
 }
 
-- 
2.43.0


From c4b56d9e41501bb8ad61b56bb12f769ff88c5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:54 +0000
Subject: [PATCH 30/68] fix: return an error for negative row indexes

---
 sql/query/response/resultset/row_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..75359ff 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -134,7 +134,7 @@ func (row *row) Values() []any {
 // ValueAt returns the row value at the specified index.
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
-	if len(values) <= index {
+	if index < 0 || len(values) <= index {
 		return nil, errors.ErrNotExist
 	}
 	return values[index], nil
-- 
2.43.0


From e441d0eeefa02a5a7b781077955758ac3617c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 31/68] fix: report invalid selectors of aggregated result sets

---
 sql/query/response/resultset/resultset_aggr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index de94a3e..d3047f8 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -111,11 +111,14 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 	// Generate a new schema for the aggregated result set
 
 	rsSchema := srcRs.Schema()
-	aggrSchema := NewSchema(
+	aggrSchema, err := NewSchemaFrom(
 		WithSchemaDatabaseName(rsSchema.DatabaseName()),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	// Generate a new aggregated rows
 
-- 
2.43.0


From 879d60350bea4de52e140612a95588f6260cd1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:13 +0000
Subject: [PATCH 32/68] fix: report only function columns of result sets as
 functions

---
 sql/query/response/resultset/column_impl.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sql/query/response/resultset/column_impl.go b/sql/query/response/resultset/column_impl.go
index a455d90..3c99506 100644
--- a/sql/query/response/resultset/column_impl.go
+++ b/sql/query/response/resultset/column_impl.go
@@ -16,15 +16,10 @@ package resultset
 
 import (
 	"fmt"
-	"regexp"
 
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 )
 
-var funcColumnNameRegex = regexp.MustCompile(
-	`^([a-zA-Z_][a-zA-Z0-9_]*)(\((.*)\))?$`,
-)
-
 type column struct {
 	name string
 	t    DataType
@@ -99,10 +94,7 @@ func (col *column) IsAsterisk() bool {
 
 // IsFunction returns true if the column is a function.
 func (col *column) IsFunction() bool {
-	if funcColumnNameRegex.MatchString(col.name) {
-		return true
-	}
-	return true
+	return col.fn != nil
 }
 
 // Function returns the function associated with the column.
-- 
2.43.0


From 70ca49bbe6470e5822334245e27fd41f8644b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:45 +0000
Subject: [PATCH 33/68] fix: HasFunction is true only if a selector is a
 function

---
 sql/query/selectors_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 44bdf03..889cf7f 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -34,7 +34,7 @@ func (selectors Selectors) IsAsterisk() bool {
 func (selectors Selectors) HasFunction() bool {
 	for _, selector := range selectors {
 		_, ok := selector.Function()
-		if !ok {
+		if ok {
 			return true
 		}
 	}
-- 
2.43.0


From 37caa3e1f29b54f23f85a13d5922758279d65928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:52 +0000
Subject: [PATCH 34/68] fix: do not aggregate a part of an invalid row

---
 sql/fn/aggr_impl.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index fe9a67d..35a90fc 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -234,8 +234,19 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	groupBys, isGrouping := aggr.GroupBys()
+	groupKeysCnt := len(groupBys)
+
+	// Converts all values before the aggregation so that an invalid row changes nothing.
+	values := make([]float64, 0, len(row))
+	for n, rv := range row[groupKeysCnt:] {
+		fv, err := toFloat64(rv)
+		if err != nil {
+			return fmt.Errorf("[%d] %w row : %w", (groupKeysCnt + n), ErrInvalid, err)
+		}
+		values = append(values, fv)
+	}
+
 	if isGrouping {
-		groupKeysCnt := len(groupBys)
 		groupKeys := slices.Clone(row[:groupKeysCnt])
 		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 		if err != nil {
@@ -254,11 +265,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 				aggr.groupAggrs[groupSetKey][n] = nv
 			}
 		}
-		for n, rv := range row[groupKeysCnt:] {
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
-			}
+		for n, fv := range values {
 			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
 			if err != nil {
 				return err
@@ -267,11 +274,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 		aggr.groupCounts[groupSetKey]++
 	} else {
-		for n, rv := range row {
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
-			}
+		for n, fv := range values {
 			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fv)
 			if err != nil {
 				return err
-- 
2.43.0


From b3aa0a5e0091e6e26e1dd71a5384a0a53b82ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:19 +0000
Subject: [PATCH 35/68] fix: count values which are not numbers

---
 sql/fn/aggr_impl.go | 13 +++++++++++++
 sql/fn/count.go     |  1 +
 2 files changed, 14 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 35a90fc..cf34559 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -35,6 +35,7 @@ type aggrImpl struct {
 	name        string
 	args        []string
 	columns     []string
+	anyValue    bool
 	aggrs       []float64
 	counts      int
 	groupBys    []GroupBy
@@ -57,6 +58,7 @@ func newAggr() *aggrImpl {
 		name:        "",
 		args:        make([]string, 0),
 		columns:     make([]string, 0),
+		anyValue:    false,
 		groupBys:    []GroupBy{},
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
@@ -91,6 +93,14 @@ func withAggrArguments(args []string) aggrOption {
 	}
 }
 
+// withAggrAnyValue allows the Aggr aggregator to aggregate values which are not numbers.
+func withAggrAnyValue() aggrOption {
+	return func(aggr *aggrImpl) error {
+		aggr.anyValue = true
+		return nil
+	}
+}
+
 // withAggrResetFunc sets the reset function for the Aggr aggregator.
 func withAggrResetFunc(resetFunc AggrResetFunc) aggrOption {
 	return func(aggr *aggrImpl) error {
@@ -221,6 +231,9 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	toFloat64 := func(v any) (float64, error) {
+		if aggr.anyValue {
+			return 0, nil
+		}
 		switch v := v.(type) {
 		case nil:
 			return 0, nil
diff --git a/sql/fn/count.go b/sql/fn/count.go
index 928a334..8956ce9 100644
--- a/sql/fn/count.go
+++ b/sql/fn/count.go
@@ -40,6 +40,7 @@ func NewCount(opts ...CountOption) (*Count, error) {
 
 	opts = append(opts,
 		withAggrName("COUNT"),
+		withAggrAnyValue(),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
 				return 0, nil
-- 
2.43.0


From c5c43ccdde063e5714959ddbb801ddf1e9e3d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:55 +0000
Subject: [PATCH 36/68] fix: ignore NULL values in aggregations

---
 sql/fn/aggr_impl.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index cf34559..1ffdfef 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -37,13 +37,13 @@ type aggrImpl struct {
 	columns     []string
 	anyValue    bool
 	aggrs       []float64
-	counts      int
+	counts      []int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupOrder  []GroupBySet
 	groupAggrs  map[GroupBySet][]float64
-	groupCounts map[GroupBySet]int
+	groupCounts map[GroupBySet][]int
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
 	finalFunc   AggrFinalizeFunc
@@ -62,11 +62,11 @@ func newAggr() *aggrImpl {
 		groupBys:    []GroupBy{},
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
-		counts:      0,
+		counts:      make([]int, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupOrder:  make([]GroupBySet, 0),
 		groupAggrs:  make(map[GroupBySet][]float64),
-		groupCounts: make(map[GroupBySet]int),
+		groupCounts: make(map[GroupBySet][]int),
 		resetFunc:   nil,
 		aggFunc:     nil,
 		finalFunc:   nil,
@@ -214,11 +214,11 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 		aggr.aggrs[n] = nv
 	}
 
-	aggr.counts = 0
+	aggr.counts = make([]int, len(aggr.columns))
 
 	aggr.groupOrder = make([]GroupBySet, 0)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
-	aggr.groupCounts = make(map[GroupBySet]int)
+	aggr.groupCounts = make(map[GroupBySet][]int)
 
 	return nil
 }
@@ -249,6 +249,11 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	groupBys, isGrouping := aggr.GroupBys()
 	groupKeysCnt := len(groupBys)
 
+	// NULL values are ignored except for the asterisk argument.
+	isIgnored := func(n int) bool {
+		return row[groupKeysCnt+n] == nil && (len(aggr.args) <= n || aggr.args[n] != "*")
+	}
+
 	// Converts all values before the aggregation so that an invalid row changes nothing.
 	values := make([]float64, 0, len(row))
 	for n, rv := range row[groupKeysCnt:] {
@@ -268,7 +273,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
 			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupKeys[groupSetKey] = groupKeys
-			aggr.groupCounts[groupSetKey] = 0
+			aggr.groupCounts[groupSetKey] = make([]int, (len(aggr.columns) - groupKeysCnt))
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
 			for n := range aggr.groupAggrs[groupSetKey] {
 				nv, err := aggr.resetFunc(aggr)
@@ -279,22 +284,28 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			}
 		}
 		for n, fv := range values {
+			if isIgnored(n) {
+				continue
+			}
 			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
 			if err != nil {
 				return err
 			}
 			aggr.groupAggrs[groupSetKey][n] = nv
+			aggr.groupCounts[groupSetKey][n]++
 		}
-		aggr.groupCounts[groupSetKey]++
 	} else {
 		for n, fv := range values {
+			if isIgnored(n) {
+				continue
+			}
 			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fv)
 			if err != nil {
 				return err
 			}
 			aggr.aggrs[n] = nv
+			aggr.counts[n]++
 		}
-		aggr.counts++
 	}
 
 	return nil
@@ -407,14 +418,14 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 			if !ok {
 				return nil, fmt.Errorf("group values %w for group %v", ErrNotFound, groupSetKey)
 			}
-			groupCnt, ok := aggr.groupCounts[groupSetKey]
+			groupCnts, ok := aggr.groupCounts[groupSetKey]
 			if !ok {
 				return nil, fmt.Errorf("group count %w for group %v", ErrNotFound, groupSetKey)
 			}
 			row := make([]any, 0)
 			row = append(row, groupSetKeyValues...)
-			for _, columnValue := range columnValues {
-				fv, err := aggr.finalFunc(aggr, columnValue, groupCnt)
+			for n, columnValue := range columnValues {
+				fv, err := aggr.finalFunc(aggr, columnValue, groupCnts[n])
 				if err != nil {
 					return nil, err
 				}
@@ -424,8 +435,8 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 	} else {
 		row := make([]any, 0)
-		for _, value := range aggr.aggrs {
-			fv, err := aggr.finalFunc(aggr, value, aggr.counts)
+		for n, value := range aggr.aggrs {
+			fv, err := aggr.finalFunc(aggr, value, aggr.counts[n])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 6c4a7ebd78f49c60f62893fb545d5529adbd000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:52 +0000
Subject: [PATCH 37/68] fix: drop the specified column and index of a schema

---
 sql/query/schema.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..c1f3df4 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -15,6 +15,7 @@
 package query
 
 import (
+	"slices"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/errors"
@@ -178,10 +179,10 @@ func (schema *schema) AddColumn(column Column) error {
 // DropColumn drops a column by the specified name.
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
-		if strings.EqualFold(column.Name(), name) {
+		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
+		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
 		return nil
 	}
 	return newErrColumnNotFound(name)
@@ -196,10 +197,10 @@ func (schema *schema) AddIndex(index Index) error {
 // DropIndex drops an index by the specified name.
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
-		if strings.EqualFold(index.Name(), name) {
+		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
+		schema.indexes = slices.Delete(slices.Clone(schema.indexes), n, n+1)
 		return nil
 	}
 	return newErrIndexNotFound(name)
-- 
2.43.0


From 1252f7ebe1dc379471ccb33c5578606548bb25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:18 +0000
Subject: [PATCH 38/68] fix: copy columns with their own literals and functions

---
 sql/query/column.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..1dedaba 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -237,11 +237,12 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	cp := *col
+	if col.Literal != nil {
+		lit := *col.Literal
+		cp.Literal = &lit
+	}
+	return &cp
 }
 
 // String returns the string representation.
-- 
2.43.0


From 9765fa305b0cec53ba70a5e0b49a3bb66edf255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:44 +0000
Subject: [PATCH 39/68] fix: do not panic on columns without literals

---
 sql/query/column.go  | 3 +++
 sql/query/literal.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 1dedaba..f433370 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -176,6 +176,9 @@ func (col *column) IsName(name string) bool {
 
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
+	if col.Literal == nil {
+		col.Literal = NewLiteral()
+	}
 	col.Literal.SetValue(v)
 	return col.SetDefinition(col.ColumnDef)
 }
diff --git a/sql/query/literal.go b/sql/query/literal.go
index add7e82..e9f9628 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -99,6 +99,9 @@ func (lit *Literal) SetValue(v any) *Literal {
 
 // Value returns the literal value.
 func (lit *Literal) Value() any {
+	if lit == nil {
+		return nil
+	}
 	return lit.v
 }
 
@@ -110,6 +113,9 @@ func (lit *Literal) SetValueType(t LiteralType) *Literal {
 
 // ValueType returns the literal type.
 func (lit *Literal) ValueType() LiteralType {
+	if lit == nil {
+		return UnknownLiteral
+	}
 	return lit.t
 }
 
-- 
2.43.0


From 5cc58392fcb59a6811a6572ce03bdd9f0167470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:12 +0000
Subject: [PATCH 40/68] fix: return an error for negative column indexes

---
 sql/query/columns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/columns.go b/sql/query/columns.go
index 84603be..b3861dd 100644
--- a/sql/query/columns.go
+++ b/sql/query/columns.go
@@ -61,7 +61,7 @@ func (columns Columns) Selectors() Selectors {
 
 // ColumnAt returns a column by the specified index.
 func (columns Columns) ColumnAt(n int) (Column, error) {
-	if len(columns) <= n {
+	if n < 0 || len(columns) <= n {
 		return nil, newErrColumnIndexOutOfRange(n)
 	}
 	return columns[n], nil
-- 
2.43.0


From 40f4c5491b6f2cd60a1ef9de1a146696e480a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:44 +0000
Subject: [PATCH 41/68] fix: add the name of the NAME data type

---
 sql/query/data_type.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index 52f9ffc..c44084e 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -110,6 +110,7 @@ var dataTypeStrings = map[DataType]string{
 	SerialType:          "SERIAL",
 	BigSerialType:       "BIGSERIAL",
 	SmallSerialType:     "SMALLSERIAL",
+	NameType:            "NAME",
 }
 
 // NewDataTypeFrom returns a data type from the specified value.
-- 
2.43.0


From 372356e6e0fd3c90e923d1223831e6df6307aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:27 +0000
Subject: [PATCH 42/68] fix: do not panic on columns without definitions

---
 sql/query/column.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index f433370..68f0d5a 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -261,6 +261,30 @@ func (col *column) DefinitionString() string {
 	return col.name + " " + col.ColumnDef.String()
 }
 
+// Constraint returns the column constraint.
+func (col *column) Constraint() Constraint {
+	if col.ColumnDef == nil {
+		return ConstraintNone
+	}
+	return col.ColumnDef.Constraint()
+}
+
+// DataType returns the column data type.
+func (col *column) DataType() DataType {
+	if col.ColumnDef == nil {
+		return UnknownData
+	}
+	return col.ColumnDef.DataType()
+}
+
+// DataTypeSize returns the column data type size.
+func (col *column) DataTypeSize() int {
+	if col.ColumnDef == nil {
+		return 0
+	}
+	return col.ColumnDef.DataTypeSize()
+}
+
 // Definition returns the column definition.
 func (col *column) Definition() ColumnDef {
 	return col.ColumnDef
-- 
2.43.0


From bf05e1f4e526237e90030ad239e298f6bd9ce269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:59 +0000
Subject: [PATCH 43/68] fix: do not merge NULL and empty group keys

---
 sql/fn/groupby.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index e7c3029..7fb317c 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -52,6 +52,10 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	}
 	groupBySet := []GroupBy{}
 	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			groupBySet = append(groupBySet, NewGroupBy("NULL"))
+			continue
+		}
 		var groupKeyStr string
 		err := safecast.ToString(groupKey, &groupKeyStr)
 		if err != nil {
-- 
2.43.0


From 890e7b99e444d0a01df48ff59d094b4f2ffdc050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:25 +0000
Subject: [PATCH 44/68] fix: register an updated connection by its own
 identifiers

---
 sql/net/conn_manager_impl.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..a5bab11 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -72,8 +72,18 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	// The new connection must not replace any connection other than the old one.
+	if c, ok := cm.m[to.UUID()]; ok && c.UUID() != uuid {
+		return newErrConnExist(to.UUID().String())
+	}
+	if c, ok := cm.uidMap[to.ID()]; ok && c.UUID() != uuid {
+		return newErrConnExist(fmt.Sprintf("%d", to.ID()))
+	}
+
+	delete(cm.m, uuid)
+	delete(cm.uidMap, uid)
+	cm.m[to.UUID()] = to
+	cm.uidMap[to.ID()] = to
 
 	return nil
 }
-- 
2.43.0


From f4b47138c0a4e08807fa26b427128f7ead38b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 45/68] fix: remove only the specified connection, atomically

---
 sql/net/conn_manager_impl.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index a5bab11..95ee9fd 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -119,27 +119,40 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
-	delete(cm.uidMap, conn.ID())
-	delete(cm.m, conn.UUID())
+	cm.removeConn(conn)
 	return nil
 }
 
+// removeConn deletes the specified connection if it is registered, the mutex must be locked.
+func (cm *mgr) removeConn(conn Conn) {
+	c, ok := cm.m[conn.UUID()]
+	if !ok {
+		return
+	}
+	delete(cm.uidMap, c.ID())
+	delete(cm.m, c.UUID())
+}
+
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
-	conn, ok := cm.LookupConnByUID(cid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.uidMap[cid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn)
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
-	conn, ok := cm.LookupConnByUUID(uuid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.m[uuid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn)
 }
 
 // Start starts the connection manager.
-- 
2.43.0


From 4a1cdcbc43c758400a4389bdcd83b859f073938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:19 +0000
Subject: [PATCH 46/68] fix: close a connection only once even if it is closed
 concurrently

---
 sql/net/conn_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..fc70f87 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -99,6 +99,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.Lock()
+	defer conn.Unlock()
 	if conn.isClosed {
 		return nil
 	}
-- 
2.43.0


From e3a6b906c3f2b10e7d68deea949e890e6b7c1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:42 +0000
Subject: [PATCH 47/68] fix: do not panic on connections without span contexts

---
 sql/net/conn_impl.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index fc70f87..4d9e9fe 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -54,7 +54,7 @@ func NewConnWith(netConn net.Conn, opts ...ConnOption) Conn {
 		ts:            time.Now(),
 		uuid:          uuid.New(),
 		id:            0,
-		tracerContext: nil,
+		tracerContext: &tracer.NullSpanContext,
 	}
 	for _, opt := range opts {
 		opt(conn)
@@ -185,25 +185,29 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	return conn.SpanContext().Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	return conn.SpanContext().StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	return conn.SpanContext().FinishSpan()
 }
-- 
2.43.0


From 32c88d5cd77f39835eb7c7cdf91fa6c2d9b5883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:07 +0000
Subject: [PATCH 48/68] fix: wrap the sentinel errors

---
 sql/errors/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/errors/errors.go b/sql/errors/errors.go
index cf40601..5698002 100644
--- a/sql/errors/errors.go
+++ b/sql/errors/errors.go
@@ -50,15 +50,15 @@ func NewErrNotImplemented(s string) error {
 
 // NewErrNotExist returns an error for a not exist.
 func NewErrNotExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrNotExist)
 }
 
 // NewErrExist returns an error for a exist.
 func NewErrExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrExist)
 }
 
 // NewErrNotSupported returns an error for a not supported.
 func NewErrNotSupported(name string) error {
-	return fmt.Errorf("%s is not supported", name)
+	return fmt.Errorf("%s is %w", name, ErrNotSupported)
 }
-- 
2.43.0


From 2f2396bc737739893f7ba4a0d52d3c3b051909f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:32 +0000
Subject: [PATCH 49/68] fix: set the table names of the schemas to the
 information schema

---
 sql/system/schema_columns_resutset_from.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..fc54e68 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -82,7 +82,7 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsSchema:
 					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
-- 
2.43.0


From bb030d1ee8c3c3ac30f758ab024d0673ab4df287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:22 +0000
Subject: [PATCH 50/68] fix: escape the names of information schema queries

---
 sql/system/schema_columns_stmt_impl.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 5df1bed..50da857 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/cybergarage/go-sqlparser/sql"
 	"github.com/cybergarage/go-sqlparser/sql/query"
+	util "github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type schemaColumnsStatement struct {
@@ -74,20 +75,25 @@ func NewSchemaColumnsStatement(opts ...SchemaColumnsStatementOption) (SchemaColu
 }
 
 func (stmt *schemaColumnsStatement) generateSelectStatement() error {
-	query := SchemaColumnsQuery + " WHERE "
+	conditions := []string{}
 	if 0 < len(stmt.dbName) {
-		query += SchemaColumnsSchema + " = '" + stmt.dbName + "'"
+		conditions = append(conditions, SchemaColumnsSchema+" = "+util.EscapeString(stmt.dbName))
 	}
 	switch {
 	case len(stmt.tblNames) == 1:
-		query += " AND " + SchemaColumnsTableName + " = '" + stmt.tblNames[0] + "'"
+		conditions = append(conditions, SchemaColumnsTableName+" = "+util.EscapeString(stmt.tblNames[0]))
 	case 1 < len(stmt.tblNames):
 		escapedTableNames := make([]string, len(stmt.tblNames))
 		for n, tblName := range stmt.tblNames {
-			escapedTableNames[n] = "'" + tblName + "'"
+			escapedTableNames[n] = util.EscapeString(tblName)
 		}
-		query += " AND " + SchemaColumnsTableName + " IN (" + strings.Join(escapedTableNames, ",") + ")"
+		conditions = append(conditions, SchemaColumnsTableName+" IN ("+strings.Join(escapedTableNames, ",")+")")
 	}
+	query := SchemaColumnsQuery
+	if 0 < len(conditions) {
+		query += " WHERE " + strings.Join(conditions, " AND ")
+	}
+
 	parser := sql.NewParser()
 	parsedStmts, err := parser.ParseString(query)
 	if err != nil {
-- 
2.43.0


From 3c43a6f6943f07712b229a6772959ef937676c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:21 +0000
Subject: [PATCH 51/68] fix: print the columns of INSERT rows which have their
 own columns

---
 sql/query/insert.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/sql/query/insert.go b/sql/query/insert.go
index 5a1d34e..09d430c 100644
--- a/sql/query/insert.go
+++ b/sql/query/insert.go
@@ -15,6 +15,8 @@
 package query
 
 import (
+	"slices"
+
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
@@ -69,14 +71,34 @@ func (stmt *insertStmt) String() string {
 		"INSERT",
 		"INTO",
 		stmt.FullTableName(),
-		"("+stmt.Columns().NameString()+")",
-		"VALUES",
 	)
 	values := stmt.Values()
 	valuesStrs := make([]string, 0, len(values))
-	for _, values := range values {
-		valuesStrs = append(valuesStrs, "("+values.ValueString()+")")
+	if stmt.hasCommonColumns() {
+		strs = append(strs, "("+stmt.Columns().NameString()+")")
+		for _, values := range values {
+			valuesStrs = append(valuesStrs, "("+values.ValueString()+")")
+		}
+	} else {
+		for _, values := range values {
+			valueStrs := make([]string, 0, len(values))
+			for _, column := range values {
+				valueStrs = append(valueStrs, column.Name()+" = "+column.ValueString())
+			}
+			valuesStrs = append(valuesStrs, "("+strings.JoinWithComma(valueStrs)+")")
+		}
 	}
-	strs = append(strs, strings.JoinWithComma(valuesStrs))
+	strs = append(strs, "VALUES", strings.JoinWithComma(valuesStrs))
 	return strings.JoinWithSpace(strs)
 }
+
+// hasCommonColumns returns true if all rows have the same columns.
+func (stmt *insertStmt) hasCommonColumns() bool {
+	names := stmt.Columns().Names()
+	for _, values := range stmt.values {
+		if !slices.Equal(names, values.Names()) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 8529c457fce0de68180dbd16632c76e61cfccaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:03 +0000
Subject: [PATCH 52/68] fix: return an error for a zero divisor

---
 sql/fn/arith_func.go | 3 +++
 sql/fn/math_func.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index 23110c0..05a336b 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -74,6 +74,9 @@ func NewDivOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		DivOperatorID,
 		func(v1, v2 float64) (float64, error) {
+			if v2 == 0 {
+				return 0, newErrInvalidArguments(DivOperatorID, v1, v2)
+			}
 			return (v1 / v2), nil
 		},
 		opts...,
diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index 832fb9b..d950959 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -158,6 +158,9 @@ func NewPower(opts ...ExecutorOption) Executor {
 			if base < 0 && exp != float64(int(exp)) {
 				return nil, newErrNegativeValue(args)
 			}
+			if base == 0 && exp < 0 {
+				return nil, newErrInvalidArguments(PowerFunctionName, args)
+			}
 			return math.Pow(base, exp), nil
 		},
 		opts...,
-- 
2.43.0


From f0f5184f4fa253d7cfa7dd4e0b61ca396019eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:25 +0000
Subject: [PATCH 53/68] fix: return an error for results out of the integer
 range

---
 sql/fn/math_func.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index d950959..9045a55 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -20,6 +20,14 @@ import (
 	"math"
 )
 
+// toInt returns the integer of the specified value, or an error if it is out of the integer range.
+func toInt(name string, v float64) (any, error) {
+	if !(float64(math.MinInt) <= v && v < -float64(math.MinInt)) {
+		return nil, newErrInvalidArguments(name, v)
+	}
+	return int(v), nil
+}
+
 // NewAbs returns a new abs function.
 func NewAbs(opts ...ExecutorOption) Executor {
 	ex := NewMathFunctionWith(
@@ -43,7 +51,7 @@ func NewFloor(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(FloorFunctionName, args)
 			}
-			return int(math.Floor(args[0])), nil
+			return toInt(FloorFunctionName, math.Floor(args[0]))
 		},
 		opts...,
 	)
@@ -57,7 +65,7 @@ func NewCeil(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(CeilFunctionName, args)
 			}
-			return int(math.Ceil(args[0])), nil
+			return toInt(CeilFunctionName, math.Ceil(args[0]))
 		},
 		opts...,
 	)
@@ -71,7 +79,7 @@ func NewRound(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(RoundFunctionName, args)
 			}
-			return int(math.Round(args[0])), nil
+			return toInt(RoundFunctionName, math.Round(args[0]))
 		},
 		opts...,
 	)
-- 
2.43.0


From 0b0ab469696f04ef2feb5a3e5fd93bc4610292ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:20 +0000
Subject: [PATCH 54/68] fix: keep the columns and indexes of schemas which
 share a list apart

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index c1f3df4..07ebd61 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -172,7 +172,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(slices.Clip(schema.columns), column)
 	return nil
 }
 
@@ -190,7 +190,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(slices.Clip(schema.indexes), index)
 	return nil
 }
 
-- 
2.43.0


From 1f60c1575afffe84ba9dc51b90548b2a813721a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 55/68] fix: do not drop another connection with the ID of an
 updated one

---
 sql/net/conn_manager_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 95ee9fd..fbfaac3 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -68,7 +68,7 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 		return newErrConnNotExists(uuid.String())
 	}
 	uid := from.ID()
-	if _, ok := cm.uidMap[uid]; !ok {
+	if c, ok := cm.uidMap[uid]; !ok || c.UUID() != uuid {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
-- 
2.43.0


From 5ddd9c6ce1174a782c011b73a425b36899e16513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:40 +0000
Subject: [PATCH 56/68] fix: return an error for column values which an integer
 type would change

---
 sql/query/column.go | 29 +++++++++++++++++++++++++++++
 sql/query/errors.go |  4 ++++
 2 files changed, 33 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 68f0d5a..6a70b6a 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -15,7 +15,10 @@
 package query
 
 import (
+	"errors"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -183,6 +186,25 @@ func (col *column) SetValue(v any) error {
 	return col.SetDefinition(col.ColumnDef)
 }
 
+// isIntegerValue returns false if the value is a number which is not an integer or out of the 64-bit range.
+func isIntegerValue(v any) bool {
+	switch v := v.(type) {
+	case string:
+		_, err := strconv.ParseInt(v, 10, 64)
+		if err == nil || errors.Is(err, strconv.ErrRange) {
+			return err == nil
+		}
+	case float32, float64:
+	default:
+		return true
+	}
+	var f float64
+	if err := safecast.ToFloat64(v, &f); err != nil {
+		return true // the cast to the integer type returns the error
+	}
+	return f == math.Trunc(f) && -(1<<63) <= f && f < (1<<63)
+}
+
 // SetDefinition sets the column definition to update the column value.
 func (col *column) SetDefinition(dataDef ColumnDef) error {
 	col.ColumnDef = dataDef
@@ -191,6 +213,13 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		return nil
 	}
 
+	switch dataDef.DataType() {
+	case TinyIntType, SmallIntType, IntType, IntegerType, BigIntType:
+		if !isIntegerValue(col.v) {
+			return newErrInvalidColumnValue(col.name, col.v)
+		}
+	}
+
 	switch dataDef.DataType() {
 	case TinyIntType:
 		var v int8
diff --git a/sql/query/errors.go b/sql/query/errors.go
index f3a1506..04fa88b 100644
--- a/sql/query/errors.go
+++ b/sql/query/errors.go
@@ -64,3 +64,7 @@ func newErrInvalidDataType(s any) error {
 func newErrInvaidDataDef(s any) error {
 	return fmt.Errorf("data def (%s) %w", s, ErrInvalid)
 }
+
+func newErrInvalidColumnValue(name string, v any) error {
+	return fmt.Errorf("column (%s) value (%v) %w", name, v, ErrInvalid)
+}
-- 
2.43.0


From d8ec284ece5c5e4f8df574d04cf7cb63db621afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:10 +0000
Subject: [PATCH 57/68] fix: accept boolean column values in any letter case

---
 sql/query/column.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a70b6a..563d5f9 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -259,7 +259,11 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		col.Literal.SetValue(v)
 	case BooleanType:
 		var v bool
-		if err := safecast.ToBool(col.v, &v); err != nil {
+		from := col.v
+		if s, ok := from.(string); ok {
+			from = strings.ToLower(s) // TRUE and FALSE are case-insensitive
+		}
+		if err := safecast.ToBool(from, &v); err != nil {
 			return err
 		}
 		col.Literal.SetValue(v)
-- 
2.43.0


From 007b52fffc1a846a3977a069c3b2cb2e1f11be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:01 +0000
Subject: [PATCH 58/68] fix: do not share the schemas of WithConnSchemas
 between connections

---
 sql/net/conn_impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 4d9e9fe..fab4c92 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -72,7 +72,8 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = []string{}
+		conn.SetSchemas(schemas...)
 	}
 }
 
-- 
2.43.0


From 3356c2b45a6cb5b47b5eb1c50206d5b94e45d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:04 +0000
Subject: [PATCH 59/68] fix: return the data types of string and time functions

---
 sql/query/data_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index c44084e..8c44084 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -158,6 +158,10 @@ func NewDataTypeForFunction(fx Function) (DataType, error) {
 		return FloatType, nil
 	case fn.ArithOperator:
 		return FloatType, nil
+	case fn.StringFunction:
+		return VarCharType, nil
+	case fn.TimeFunction:
+		return TimeStampType, nil
 	default:
 		return UnknownData, newErrInvalidDataType(fx)
 	}
-- 
2.43.0


From acc48076073630e4ac52bce4337e8b78fdbe7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:18 +0000
Subject: [PATCH 60/68] fix: escape the table names of information schema
 queries

---
 sql/system/schema_columns_resutset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index da4a857..ff93900 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -16,6 +16,7 @@ package system
 
 import (
 	"github.com/cybergarage/go-sqlparser/sql"
+	util "github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 // PostgreSQL: Documentation: 17: 35.17. columns
@@ -38,7 +39,7 @@ func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error
 			if 0 < n {
 				query += " OR "
 			}
-			query += "TABLE_NAME = '" + tableName + "'"
+			query += "TABLE_NAME = " + util.EscapeString(tableName)
 		}
 	}
 	stmt, err := sql.NewParser().ParseString(query)
-- 
2.43.0


From e52a51c3bc3483f3519f3d49f564eec0278fe29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:31 +0000
Subject: [PATCH 61/68] fix: return an error for statements which can not be
 represented instead of dropping them silently

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6a20427..c76bf34 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -52,7 +52,7 @@ func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.Statemen
 			}
 			stmt := newStatementWith(sqlStmt)
 			if stmt == nil {
-				continue
+				return nil, errors.NewErrNotSupported(sqlStmt.GetText())
 			}
 			stmtList = append(stmtList, stmt)
 		}
-- 
2.43.0


From 062fa308d5e315c35f30c0e46d049688362310a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 62/68] fix: return an error for text after a statement which
 is not separated by a semicolon

---
 sql/parser/sqlite/parser_antlr_visitor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c76bf34..3221e2d 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -45,7 +45,10 @@ func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
 
 func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
-	for _, ctx := range ctxList {
+	for n, ctx := range ctxList {
+		if 0 < n && !hasStatementSeparatorBetween(ctxList[n-1], ctx) {
+			return nil, errors.NewErrNotSupported(ctx.GetText())
+		}
 		for _, sqlStmt := range ctx.AllSql_stmt() {
 			if err := checkSupportedStatement(sqlStmt); err != nil {
 				return nil, err
@@ -60,6 +63,11 @@ func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.Statemen
 	return stmtList, nil
 }
 
+// hasStatementSeparatorBetween returns true if the two adjacent statement lists are separated by a semicolon.
+func hasStatementSeparatorBetween(prev antlr.ISql_stmt_listContext, next antlr.ISql_stmt_listContext) bool {
+	return prev.GetStop().GetTokenType() == antlr.SQLiteParserSCOL || next.GetStart().GetTokenType() == antlr.SQLiteParserSCOL
+}
+
 // checkSupportedStatement returns an error when the statement is grammatically valid but includes a construct which can not be represented by the query package.
 func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 	checkIndexedColumns := func(columns []antlr.IIndexed_columnContext) error {
-- 
2.43.0


From ba032a5c015581fce58b6db2adadf9948bc2f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 63/68] fix: return an error for query constructs which can not
 be represented instead of ignoring them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 31 ++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 3221e2d..74da19e 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -84,7 +84,13 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		}
 		return nil
 	}
+	if ctx.EXPLAIN_() != nil {
+		return errors.NewErrNotSupported(ctx.GetText())
+	}
 	if stmt := ctx.Create_table_stmt(); stmt != nil {
+		if stmt.Select_stmt() != nil {
+			return errors.NewErrNotSupported(stmt.GetText())
+		}
 		for _, tblConst := range stmt.AllTable_constraint() {
 			if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
 				if err := checkIndexedColumns(primaryDef.AllIndexed_column()); err != nil {
@@ -97,7 +103,7 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		return checkIndexedColumns(stmt.AllIndexed_column())
 	}
 	if stmt := ctx.Insert_stmt(); stmt != nil {
-		if stmt.Values_clause() == nil {
+		if stmt.Values_clause() == nil || stmt.With_clause() != nil || stmt.Upsert_clause() != nil || stmt.Returning_clause() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
 		for _, row := range stmt.Values_clause().AllValue_row() {
@@ -116,6 +122,9 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		}
 	}
 	if stmt := ctx.Update_stmt(); stmt != nil {
+		if stmt.With_clause() != nil || stmt.FROM_() != nil || stmt.Returning_clause() != nil {
+			return errors.NewErrNotSupported(stmt.GetText())
+		}
 		for _, set := range stmt.AllUpdate_column_set() {
 			if set.Column_name() == nil {
 				return errors.NewErrNotSupported(set.GetText())
@@ -127,8 +136,28 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		return checkWhereExpr(stmt.GetWhereExpr())
 	}
 	if stmt := ctx.Delete_stmt(); stmt != nil {
+		if stmt.With_clause() != nil || stmt.Returning_clause() != nil {
+			return errors.NewErrNotSupported(stmt.GetText())
+		}
 		return checkWhereExpr(stmt.GetWhereExpr())
 	}
+	if stmt := ctx.Rollback_stmt(); stmt != nil && stmt.Savepoint_name() != nil {
+		return errors.NewErrNotSupported(stmt.GetText())
+	}
+	if stmt := ctx.Select_stmt(); stmt != nil {
+		if stmt.Common_table_stmt() != nil || 0 < len(stmt.AllCompound_operator()) {
+			return errors.NewErrNotSupported(stmt.GetText())
+		}
+		core := stmt.GetParentQuery()
+		if core.Values_clause() != nil || core.Join_clause() != nil {
+			return errors.NewErrNotSupported(core.GetText())
+		}
+		for _, from := range core.AllFrom() {
+			if from.From_table() == nil {
+				return errors.NewErrNotSupported(from.GetText())
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 2bc9f2b5e5e28e71cbf601f648c846bc5e29fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:42 +0000
Subject: [PATCH 64/68] fix: return an error for INSERT, UPDATE, DELETE and
 COPY clauses which can not be represented instead of ignoring them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 34 +++++++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 74da19e..0c5ab3f 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -84,6 +84,12 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		}
 		return nil
 	}
+	checkTableName := func(tbl antlr.IQualified_table_nameContext) error {
+		if tbl.Alias() != nil || tbl.INDEXED_() != nil {
+			return errors.NewErrNotSupported(tbl.GetText())
+		}
+		return nil
+	}
 	if ctx.EXPLAIN_() != nil {
 		return errors.NewErrNotSupported(ctx.GetText())
 	}
@@ -106,25 +112,35 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		if stmt.Values_clause() == nil || stmt.With_clause() != nil || stmt.Upsert_clause() != nil || stmt.Returning_clause() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
+		if stmt.REPLACE_() != nil || stmt.OR_() != nil || stmt.Table_alias() != nil {
+			return errors.NewErrNotSupported(stmt.GetText())
+		}
 		for _, row := range stmt.Values_clause().AllValue_row() {
 			valueCnt := 0
 			for _, expr := range row.AllExpr() {
-				if expr.Comparison_expr() == nil && expr.Literal_value() == nil && expr.Bind_param() == nil {
-					return errors.NewErrNotSupported(expr.GetText())
+				if cmpExpr := expr.Comparison_expr(); cmpExpr != nil {
+					if cmpExpr.ASSIGN() == nil || 0 < len(stmt.AllColumn_name()) {
+						return errors.NewErrNotSupported(expr.GetText())
+					}
+					continue
 				}
-				if expr.Comparison_expr() == nil {
-					valueCnt++
+				if expr.Literal_value() == nil && expr.Bind_param() == nil {
+					return errors.NewErrNotSupported(expr.GetText())
 				}
+				valueCnt++
 			}
-			if 0 < valueCnt && valueCnt != len(stmt.AllColumn_name()) {
+			if valueCnt != len(stmt.AllColumn_name()) {
 				return errors.NewErrNotSupported(row.GetText())
 			}
 		}
 	}
 	if stmt := ctx.Update_stmt(); stmt != nil {
-		if stmt.With_clause() != nil || stmt.FROM_() != nil || stmt.Returning_clause() != nil {
+		if stmt.With_clause() != nil || stmt.FROM_() != nil || stmt.Returning_clause() != nil || stmt.OR_() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
+		if err := checkTableName(stmt.GetTable()); err != nil {
+			return err
+		}
 		for _, set := range stmt.AllUpdate_column_set() {
 			if set.Column_name() == nil {
 				return errors.NewErrNotSupported(set.GetText())
@@ -139,8 +155,14 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		if stmt.With_clause() != nil || stmt.Returning_clause() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
+		if err := checkTableName(stmt.GetTable()); err != nil {
+			return err
+		}
 		return checkWhereExpr(stmt.GetWhereExpr())
 	}
+	if stmt := ctx.Copy_stmt(); stmt != nil {
+		return checkTableName(stmt.GetTable())
+	}
 	if stmt := ctx.Rollback_stmt(); stmt != nil && stmt.Savepoint_name() != nil {
 		return errors.NewErrNotSupported(stmt.GetText())
 	}
-- 
2.43.0


From 65677ebe58834a614ed015b4e891b99511848ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:36 +0000
Subject: [PATCH 65/68] fix: keep the adjacent words of an expression separated
 in its text

---
 sql/parser/sqlite/parser_antlr_visitor.go | 39 ++++++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 0c5ab3f..cb2f37c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -15,6 +15,7 @@
 package sqlite
 
 import (
+	go_antlr "github.com/antlr4-go/antlr/v4"
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/errors"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
@@ -612,7 +613,7 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 			ope := v.GetOpe().GetText()
 			args := []string{
 				v.Column_name().GetText(),
-				v.Expr().GetText(),
+				newExprTextWith(v.Expr()),
 			}
 			if executor, _ := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args)); executor != nil {
 				opts = append(opts, query.WithColumnFunctionExecutor(executor))
@@ -655,7 +656,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		}
 		groupBy := parentQuery.GetGroupByExpr()
 		if 0 < len(groupBy) {
-			opts = append(opts, query.WithSelectGroupBy(groupBy[0].GetText()))
+			opts = append(opts, query.WithSelectGroupBy(newExprTextWith(groupBy[0])))
 		}
 	}
 	where := query.NewCondition()
@@ -668,7 +669,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		if 0 < len(orderBy) {
 			orders := []query.Order{}
 			for _, order := range orderBy {
-				orderColumn := order.Expr().GetText()
+				orderColumn := newExprTextWith(order.Expr())
 				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
@@ -730,7 +731,7 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 				args = append(args, fn.NewArgumentWith(star.GetText()))
 			} else {
 				for _, arg := range fx.AllExpr() {
-					args = append(args, fn.NewArgumentWith(arg.GetText()))
+					args = append(args, fn.NewArgumentWith(newExprTextWith(arg)))
 				}
 			}
 			return fn.NewFunction(
@@ -741,7 +742,7 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	}
 	name := ctx.GetText()
 	if expr != nil {
-		name = expr.GetText()
+		name = newExprTextWith(expr)
 	}
 	return query.NewColumnWithOptions(query.WithColumnName(name)), nil
 }
@@ -862,6 +863,34 @@ func newExprWith(ctx antlr.IExprContext) query.Expr {
 	return nil
 }
 
+// newExprTextWith returns the text of the expression, separating only the adjacent tokens which would be read as another token otherwise.
+func newExprTextWith(ctx go_antlr.Tree) string {
+	isWord := func(c byte) bool {
+		return c == '_' || c == '\'' || c == '"' || c == '`' || c == '[' || c == ']' || 0x80 <= c ||
+			('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z')
+	}
+	text := ""
+	var appendText func(go_antlr.Tree)
+	appendText = func(node go_antlr.Tree) {
+		if terminal, ok := node.(go_antlr.TerminalNode); ok {
+			token := terminal.GetText()
+			if 0 < len(text) && 0 < len(token) {
+				last, first := text[len(text)-1], token[0]
+				if (isWord(last) && isWord(first)) || (last == '-' && first == '-') {
+					text += " "
+				}
+			}
+			text += token
+			return
+		}
+		for _, child := range node.GetChildren() {
+			appendText(child)
+		}
+	}
+	appendText(ctx)
+	return text
+}
+
 func newUseWith(ctx antlr.IUse_stmtContext) query.Use {
 	return query.NewUseWith(ctx.Database_name().GetText())
 }
-- 
2.43.0


From 427cf53e1fdc98ce1ee55a02f92e4f4d0f5fe465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:31 +0000
Subject: [PATCH 66/68] fix: return an error for SELECT clauses which can not
 be represented instead of ignoring them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index cb2f37c..b07cffc 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -91,6 +91,9 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		}
 		return nil
 	}
+	isBindParam := func(expr antlr.IExprContext) bool {
+		return expr.Bind_param() != nil || (expr.Literal_value() != nil && expr.Literal_value().Bind_param() != nil)
+	}
 	if ctx.EXPLAIN_() != nil {
 		return errors.NewErrNotSupported(ctx.GetText())
 	}
@@ -180,6 +183,24 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 				return errors.NewErrNotSupported(from.GetText())
 			}
 		}
+		if core.HAVING_() != nil || core.WINDOW_() != nil || 1 < len(core.GetGroupByExpr()) {
+			return errors.NewErrNotSupported(core.GetText())
+		}
+		for _, column := range core.AllResult_column() {
+			if expr := column.Expr(); expr != nil {
+				if fx := expr.Function(); fx != nil && (fx.DISTINCT_() != nil || fx.Filter_clause() != nil || fx.Over_clause() != nil) {
+					return errors.NewErrNotSupported(fx.GetText())
+				}
+			}
+		}
+		if limitStmt := stmt.Limit_stmt(); limitStmt != nil {
+			for _, expr := range limitStmt.AllExpr() {
+				var limit uint
+				if err := safecast.ToUint(expr.GetText(), &limit); err != nil && !isBindParam(expr) {
+					return errors.NewErrNotSupported(limitStmt.GetText())
+				}
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 27042193d25760097e8d688b8e3f9f47960afbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:25 +0000
Subject: [PATCH 67/68] fix: accept the conflict clauses of INSERT and UPDATE
 again

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index b07cffc..ab4341e 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -116,7 +116,7 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		if stmt.Values_clause() == nil || stmt.With_clause() != nil || stmt.Upsert_clause() != nil || stmt.Returning_clause() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
-		if stmt.REPLACE_() != nil || stmt.OR_() != nil || stmt.Table_alias() != nil {
+		if stmt.Table_alias() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
 		for _, row := range stmt.Values_clause().AllValue_row() {
@@ -139,7 +139,7 @@ func checkSupportedStatement(ctx antlr.ISql_stmtContext) error {
 		}
 	}
 	if stmt := ctx.Update_stmt(); stmt != nil {
-		if stmt.With_clause() != nil || stmt.FROM_() != nil || stmt.Returning_clause() != nil || stmt.OR_() != nil {
+		if stmt.With_clause() != nil || stmt.FROM_() != nil || stmt.Returning_clause() != nil {
 			return errors.NewErrNotSupported(stmt.GetText())
 		}
 		if err := checkTableName(stmt.GetTable()); err != nil {
-- 
2.43.0


From 0b32bca59eff9a227a5851aabc75efb37bb594af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:26 +0000
Subject: [PATCH 68/68] fix: read INDEX and KEY items of CREATE TABLE in any
 letter case

---
 sql/parser/sqlite/parser_antlr_visitor.go | 38 +++++++++++------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index ab4341e..87bf8fd 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -420,12 +420,12 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		indexDefs := indexDefs(ctx)
 		for i := 0; i < (len(indexDefs) - 1); i++ {
 			v := indexDefs[i]
-			switch v {
-			case "PRIMARY":
+			switch {
+			case strings.EqualFold(v, "PRIMARY"):
 				for j := (i + 1); j < (len(indexDefs) - 1); j++ {
 					v := indexDefs[j]
-					switch v {
-					case "KEY":
+					switch {
+					case strings.EqualFold(v, "KEY"):
 						columnName := strings.UnEscapeNameString(indexDefs[j+1])
 						column, err := columns.LookupColumn(columnName)
 						if err == nil {
@@ -433,7 +433,7 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 						}
 					}
 				}
-			case "KEY", "INDEX":
+			case strings.EqualFold(v, "KEY"), strings.EqualFold(v, "INDEX"):
 				if (i + 2) < len(indexDefs) {
 					idxName := strings.UnEscapeNameString(indexDefs[i+1])
 					columnName := strings.UnEscapeNameString(indexDefs[i+2])
@@ -453,6 +453,19 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 
 	// Column definitions.
 	for _, columDef := range ctx.AllColumn_def() {
+		// Index definition for column constraint (for MySQL compatibility).
+		// MySQL :: MySQL 8.0 Reference Manual :: 15.1.20 CREATE TABLE Statement
+		// https://dev.mysql.com/doc/refman/8.0/en/create-table.html
+		if idxName, idxColumn, ok := indexColum(columDef, columns); ok {
+			switch name := columDef.Column_name().GetText(); {
+			case strings.EqualFold(name, "PRIMARY"):
+				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
+				continue
+			case strings.EqualFold(name, "KEY"), strings.EqualFold(name, "INDEX"):
+				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
+				continue
+			}
+		}
 		column, ok := newColumnWith(columDef)
 		if ok {
 			// Primary key definition for column constraint.
@@ -463,21 +476,6 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 			}
 			columns = append(columns, column)
 		}
-		// Index definition for column constraint (for MySQL compatibility).
-		// MySQL :: MySQL 8.0 Reference Manual :: 15.1.20 CREATE TABLE Statement
-		// https://dev.mysql.com/doc/refman/8.0/en/create-table.html
-		switch columDef.Column_name().GetText() {
-		case "PRIMARY":
-			_, idxColumn, ok := indexColum(columDef, columns)
-			if ok {
-				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
-			}
-		case "KEY", "INDEX":
-			idxName, idxColumn, ok := indexColum(columDef, columns)
-			if ok {
-				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
-			}
-		}
 	}
 	// Index definitions.
 	for _, tblConst := range ctx.AllTable_constraint() {
-- 
2.43.0

