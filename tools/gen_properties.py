#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
      "state":state or [],"observe_at":observe,"hook_needed":None}})
V="sql/parser/sqlite/parser_antlr_visitor.go"
PA="sql/parser/sqlite/parser_antlr.go"
prop("C01","Printing a parsed statement and parsing it again gives the same statement",
 "For every statement the parser accepts in the supported dialect (databases, tables, indexes, INSERT, SELECT, UPDATE, DELETE, COPY, USE, TRUNCATE, VACUUM, transactions), its printed form parses without error into exactly one statement of the same kind with the same content. Printing that statement again gives the identical text.",
 ["inputs","programs"],"every statement of the supported dialect, every combination of its optional clauses, list lengths, names and literal values",
 "The tests round-trip a fixed list of query strings and mostly compare text; the guarantee is over the whole product of clauses, list lengths, quoting and literal values.",
 ["sql/query/select.go","sql/query/insert.go","sql/query/update.go","sql/query/delete.go","sql/query/create_table.go","sql/query/alter_table.go","sql/query/copy.go","sql/query/limit.go","sql/query/order.go","sql/query/literal.go",V],
 [("Statement.String of every statement kind","sql/query/*.go"),("EscapeString","sql/util/strings/strings.go")],
 ["sql.NewParser().ParseString(q)","Statement.String()"])
prop("C02","A parsed SELECT carries exactly the written clauses",
 "A parsed SELECT reports exactly the selectors (plain columns, asterisk, functions with their arguments), tables, WHERE comparison or two-comparison AND/OR, GROUP BY column, ORDER BY columns with their directions (ascending when none is written), and LIMIT/OFFSET (both spellings) of the query text, in the written order. Nothing is added, dropped, reordered or moved to another clause.",
 ["inputs","programs"],"every SELECT built from any number of selectors, tables and ordering terms, every comparison operator, literal and combination of optional clauses",
 "Tests parse a few hundred sample queries and most only check that parsing succeeds and that the printed text matches; they do not check clause contents over the product of clauses.",
 [V,"sql/query/select.go","sql/query/selectors.go","sql/query/expr_cmp.go","sql/query/order.go","sql/query/limit.go","sql/query/group.go","sql/parser/sqlite/antlr"],
 [("newSelectWith, newSelectorFrom, newExprWith",V)],["query.Select accessors after ParseString"])
prop("C03","INSERT, UPDATE, DELETE and COPY carry exactly the written data and condition",
 "A parsed INSERT, UPDATE, DELETE or COPY reports exactly the written table, columns, rows, values, assignments, condition, source and format, each value attached to its own column. A row whose value count differs from the column list, or a value, assignment or UPDATE/DELETE condition the parser cannot represent, makes parsing fail: data is never silently dropped or shifted and a condition is never lost or widened.",
 ["inputs","programs"],"every number of columns and rows, every literal and parameter, every arithmetic assignment, every WHERE clause whether supported or not",
 "Tests cover a handful of INSERT/UPDATE/DELETE shapes; losing a condition or shifting a value shows only for particular shapes.",
 [V,"sql/query/insert.go","sql/query/update.go","sql/query/delete.go","sql/query/copy.go"],
 [("newInsertWith, newUpdateWith, newDeleteWith, newCopyWith, checkSupportedStatement",V)],["query.Insert/Update/Delete/Copy accessors after ParseString"])
prop("C04","DDL and session statements carry exactly the written definition",
 "A parsed CREATE, DROP or ALTER of a database, table or index, and a parsed USE, TRUNCATE, VACUUM, BEGIN, COMMIT or ROLLBACK, reports exactly the written names, IF [NOT] EXISTS flag, columns with their data types and sizes in order, primary key and index columns, and renames. The statement kind is the written one.",
 ["inputs","programs"],"every number of columns, data type, size, index and table list, with and without the optional parts",
 "Tests parse sample DDL and check a few accessors; the definition must survive for every column count, type and combination of options.",
 [V,"sql/query/create_table.go","sql/query/alter_table.go","sql/query/create_index.go","sql/query/drop_table.go","sql/query/schema.go","sql/query/column_def.go","sql/query/data_type.go"],
 [("newTableSchemaWith, newColumnWith, newAlterTableWith",V)],["query.CreateTable/AlterTable/... accessors after ParseString"])
prop("C05","Text layout never changes meaning and literal text survives verbatim",
 "Changing only the whitespace, comments or letter case of keywords of a query, or adding a trailing semicolon, gives the same parse result. The text of every string literal (any characters, including quotes, semicolons, comment markers, placeholders, newlines and non-ASCII) and of every plain identifier and number is reported exactly as written.",
 ["inputs"],"every valid query, every layout of it, every literal and identifier text",
 "Tests use a few layouts and almost only ASCII alphanumeric literals.",
 [PA,V,"sql/util/strings/strings.go","sql/parser/sqlite/antlr"],
 [("UnEscapeString / EscapeString","sql/util/strings/strings.go"),("newLiteralValueWith",V)],["accessors and String() after ParseString"])
prop("C06","A script yields its statements in order, none lost, added or merged",
 "Parsing a text of several statements separated by semicolons returns exactly one statement per written statement, in the written order, each equal to what parsing it alone returns. If any statement of the script is invalid, the whole script fails and no statement is returned.",
 ["inputs","programs"],"every sequence of statements of any kinds and length, every separator layout, every position of an invalid statement",
 "Tests parse a few short scripts; mixing of kinds, lengths and error positions is not sampled.",
 [PA,V],[("newStatementListWith",V),("ParseString",PA)],["ParseString result list and error"])
prop("C07","Malformed or unsupported input is an error with no statements, never a panic",
 "For every input text the parser returns either a list of statements or an error, never both and never a panic or hang. A text that is not a sequence of statements (truncated, unbalanced parentheses or quotes, missing or extra tokens, text after a statement) gives an error and no statements, and an empty text gives the empty-query error.",
 ["inputs"],"every byte string: mutations of valid queries, unsupported statement forms, random token and byte sequences",
 "Tests have a short list of bad queries; crashes and silently accepted garbage live in the rest of the input space.",
 [PA,"sql/parser/sqlite/parser_antlr_error_listener.go",V],[("error listener and error check",PA),("checkSupportedStatement",V)],["ParseString result, error, panic"])
prop("C08","A parse result depends on the query text alone",
 "Parsing a text gives the same result whatever the parser parsed before (including failed parses) and whatever other parsers do concurrently. Results already returned never change when more texts are parsed.",
 ["histories","schedules"],"every sequence of valid and invalid texts through one parser, every concurrent use of separate parsers",
 "Tests use a fresh sequence of valid queries per parser and no concurrency.",
 [PA,"sql/parser_impl.go"],[("per-call lexer/parser/listener state",PA)],["ParseString results of reused and concurrent parsers"])
prop("C09","Bound parameters reach exactly their own placeholder, value preserved",
 "Binding parameters to a query gives the statements obtained by replacing the n-th ? with the n-th parameter and each $n with parameter n as a literal of that value, for strings of any content, integers, floats, booleans, NULL, bytes and times. Placeholder-like text inside string literals, quoted names and comments is untouched, a parameter value can never change the structure of the statement, and a parameter without placeholder is an error.",
 ["inputs","programs"],"every query with any number and order of placeholders, every parameter value",
 "Tests bind a few simple values; value contents that look like placeholders or quotes and two-digit positions are not sampled.",
 ["sql/stmt/bind_impl.go","sql/stmt/bind_param_impl.go"],[("bindQuery","sql/stmt/bind_impl.go"),("bindParam.String","sql/stmt/bind_param_impl.go")],["BindStatement.Statements()"])
prop("C10","Aggregators compute SUM, AVG, MIN, MAX and COUNT per group exactly",
 "After any sequence of accepted rows, finalizing an aggregator returns one row per distinct group key (one row in all without grouping) holding the key and the SUM, AVG, MIN, MAX or COUNT of exactly the non-NULL values of that group; COUNT(*) counts all rows. Groups come in the order of first appearance, or sorted by key when an order is requested; a rejected row changes nothing, finalizing changes nothing, and a reset forgets everything.",
 ["histories","inputs"],"every sequence of aggregate/reset/finalize calls, every row content, every number of grouping columns",
 "Tests aggregate a few fixed row lists once; resets, NULLs, rejected rows, key collisions and interleavings of groups are not covered.",
 ["sql/fn/aggr_impl.go","sql/fn/sum.go","sql/fn/avg.go","sql/fn/min.go","sql/fn/max.go","sql/fn/count.go","sql/fn/groupby.go"],
 [("AggregateRow, Finalize, Reset","sql/fn/aggr_impl.go"),("NewGroupBySetKey","sql/fn/groupby.go")],["Aggregator.Aggregate/Finalize/Reset"],
 [{"name":"groupAggrs/groupCounts/groupKeys","meaning":"per-group accumulators","where":"sql/fn/aggr_impl.go"}])
prop("C11","Combined and result-set aggregation keeps the values of one group together",
 "Finalizing a set of aggregators over the same rows gives, for each group, one row with the group key followed by each aggregator's value for that same group, under the column names of the aggregators. Aggregating the result set of a parsed SELECT with aggregate functions gives the same values under the selector names, in selector order.",
 ["histories","inputs"],"every combination of aggregators, group columns and rows, with and without grouping",
 "Tests check single aggregators; the combination is exercised on one or two fixed sets.",
 ["sql/fn/aggr_set.go","sql/query/response/resultset/resultset_aggr.go","sql/query/selectors_helper.go","sql/query/select_helper.go"],
 [("AggregatorSet.Finalize","sql/fn/aggr_set.go"),("NewAggregatedResultSetFrom","sql/query/response/resultset/resultset_aggr.go")],["AggregatorSet.Finalize, aggregated ResultSet rows"])
prop("C12","Scalar functions and operators are found by name and compute their value",
 "A registered scalar function or operator is found by its exact name in any letter case and no other name resolves to it. It computes its mathematical, string or time result for every argument list of its arity, evaluated positionally or by named arguments, and returns an error (never a panic or a wrong value) for a wrong number of arguments, arguments outside its domain or a zero divisor.",
 ["inputs"],"every function name and letter case, every argument list",
 "Tests evaluate a few values per function and do not cover names that extend other names, wrong arity and domain edges.",
 ["sql/fn/executor_func.go","sql/fn/math_func.go","sql/fn/arith_func.go","sql/fn/string_func.go","sql/fn/executor_impl.go","sql/fn/names.go","sql/fn/func_impl.go"],
 [("NewExecutorForName","sql/fn/executor_func.go"),("execImpl.Execute/ExecuteMap","sql/fn/executor_impl.go")],["NewExecutorForName(name).Execute(args), Function.Executor()"])
prop("C13","A result set delivers exactly its offset/limit window, projected to its schema",
 "Iterating a result set delivers, in order and once each, exactly the source rows from the offset on, at most the limit, and no row before the first or after the last one. Each delivered row has the values of the schema's columns (functions evaluated on the source row) in schema order, and access by index, by name and by scanning agree; indexes and names outside the row are errors.",
 ["histories","inputs"],"every row list, schema, offset, limit and sequence of Next/Row calls",
 "Tests iterate a few small sets; window edges, calls after the end and projections are not covered.",
 ["sql/query/response/resultset/resultset_impl.go","sql/query/response/resultset/row_impl.go","sql/query/response/resultset/row_helper.go","sql/query/response/resultset/schema_helper.go"],
 [("Next/Row","sql/query/response/resultset/resultset_impl.go"),("NewRowFromObject","sql/query/response/resultset/row_helper.go")],["ResultSet.Next/Row, Row accessors"],
 [{"name":"rowCursor","meaning":"position in the source rows","where":"sql/query/response/resultset/resultset_impl.go"}])
prop("C14","A schema evolves by exactly the requested column and index changes",
 "After any sequence of added and dropped columns and indexes, directly or through parsed ALTER TABLE, CREATE INDEX and DROP INDEX statements, a schema holds exactly the columns and indexes of the history in order, and lookup by name in any letter case finds the first of them. Dropping an unknown name is an error that changes nothing, and lists obtained earlier do not change.",
 ["histories"],"every sequence of add, drop, lookup and alter operations",
 "Tests add a column once or twice and never drop; the outcome depends on the whole history.",
 ["sql/query/schema.go","sql/query/columns.go","sql/query/indexes.go","sql/query/alter_table_from.go"],
 [("AddColumn/DropColumn/AddIndex/DropIndex/Alter","sql/query/schema.go")],["Schema.Columns/Indexes/Lookup*"])
prop("C15","Column values take their schema type unchanged in value; copies are independent",
 "Applying a schema to parsed columns converts each value of an integer, floating-point or boolean column to that type with the same value (up to floating-point rounding), keeps the text of others, and fails when the value does not fit the type, and an unknown column is an error. A copied column list equals the original and later changes to one never show in the other.",
 ["inputs","histories"],"every data type, every literal value around the type limits, every set/copy history",
 "Tests convert a few in-range values.",
 ["sql/query/column.go","sql/query/columns.go","sql/query/literal.go"],[("SetDefinition/SetValue/Copy","sql/query/column.go"),("SetSchema","sql/query/columns.go")],["Columns.SetSchema, Column.Value/SetValue/Copy"])
prop("C16","The connection registry matches its history, also under concurrency",
 "After any history of add, update, remove and close operations the registry holds exactly the connections added and not yet removed or replaced, each found by its own ID and UUID and listed once, and no two with the same ID or UUID; conflicting adds and updates fail and change nothing. Concurrent operations behave as if executed one after another.",
 ["histories","schedules"],"every sequence and every concurrent interleaving of the registry operations",
 "There is no test of the registry at all; consistency of its two indexes depends on histories and interleavings.",
 ["sql/net/conn_manager_impl.go"],[("AddConn/UpdateConn/RemoveConn*/Close","sql/net/conn_manager_impl.go")],["ConnManager methods"],
 [{"name":"m, uidMap","meaning":"the two indexes of the registry","where":"sql/net/conn_manager_impl.go"}])
prop("C17","A connection keeps its session state consistent and closes exactly once",
 "A connection reports the last user, database and span context set and the schemas added since the last database change, once each in first-set order; returned lists are independent copies and its ID, UUID and timestamp never change. Closing closes the underlying connection exactly once whatever the number of (concurrent) calls, and a failed close can be retried; all operations are safe concurrently.",
 ["histories","schedules"],"every sequence and interleaving of setters, getters and Close",
 "There is no test of connections; the schema list and close behaviour depend on the history.",
 ["sql/net/conn_impl.go"],[("SetDatabase/SetSchemas/Close","sql/net/conn_impl.go")],["Conn methods, calls on the underlying net.Conn"])
prop("C18","Information-schema queries and results describe exactly the given schemas",
 "An information-schema columns statement built from a database and table name selects with exactly those names, and reading it back from the statement or from an equivalent parsed SELECT gives the same names. The columns result set built from schemas has one row per column of each schema, in order, with its own table name, column name and data type, and reading it back gives the same columns.",
 ["inputs"],"every database and table name text, every list of schemas",
 "Tests build one or two simple statements and one schema.",
 ["sql/system/schema_columns_stmt_impl.go","sql/system/schema_columns_resutset_from.go","sql/system/schema_columns_resutset_impl.go","sql/system/schema_columns.go"],
 [("generate/traverseSelectStatement","sql/system/schema_columns_stmt_impl.go"),("NewSchemaColumnsResultSetFromSchemas","sql/system/schema_columns_resutset_from.go")],["SchemaColumnsStatement, SchemaColumnsResultSet accessors"])
prop("C19","Data type names and types correspond one to one",
 "Every supported data type prints as its own distinct SQL name, and that name in any letter case reads back as the same type; every other name is an error. Go values and functions map to their documented data type.",
 ["inputs"],"every data type, every name and letter case, every Go value kind",
 "Tests read a few names.",
 ["sql/query/data_type.go","sql/query/column_def.go"],[("NewDataTypeFromString, String","sql/query/data_type.go")],["NewDataTypeFrom, DataType.String, NewDataTypeForValue"])
prop("C20","Errors are distinguishable: SQLSTATE texts are unique and sentinels are wrapped",
 "Every SQLSTATE code and class constant has its standard value and its own descriptive text, and any other value reports as unknown. Every error constructor returns an error that names its subject and matches exactly its own sentinel error.",
 ["inputs"],"every code and class constant, every 5-character and 2-character value, every constructor and subject",
 "No test covers the tables or the wrapping.",
 ["sql/errors/code.go","sql/errors/class.go","sql/errors/errors.go","sql/errors/query.go"],[("Code.String, Class.String","sql/errors/code.go, sql/errors/class.go"),("NewErr*","sql/errors/errors.go, sql/errors/query.go")],["Code.String, Class.String, errors.Is"])
prop("C21","The object stack is last-in first-out for every history",
 "After any sequence of pushes, pops and peeks the stack holds exactly the pushed and not yet popped objects: a pop returns and removes the latest of them, a peek returns it without removing it, and both return nil on an empty stack. The size is always the number of held objects.",
 ["histories"],"every sequence of push, pop and peek of any objects",
 "The test does ten pushes then ten pops.",
 ["sql/util/stack.go"],[("PushObject/PopObject/PeekObject","sql/util/stack.go")],["Stack methods"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
