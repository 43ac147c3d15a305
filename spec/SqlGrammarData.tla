--------------------------- MODULE SqlGrammarData ---------------------------
(***************************************************************************)
(* The grammar of the dialect as data, transcribed from SQLiteParser.g4 and *)
(* SQLiteLexer.g4 by tools/gen_grammar.py (pinned; see SqlGrammar.tla).     *)
(***************************************************************************)
gT(v) == [k |-> "t", v |-> v]   \* a token class
gN(v) == [k |-> "n", v |-> v]   \* a rule
gS(c) == [k |-> "s", c |-> c]   \* all in order
gA(c) == [k |-> "a", c |-> c]   \* one of
gO(c) == [k |-> "o", e |-> c]   \* optional
gZ(c) == [k |-> "z", e |-> c]   \* any number of times
gP(c) == [k |-> "p", e |-> c]   \* at least once
Keywords == {
  "ABORT", "ACTION", "ADD", "AFTER", "ALL", "ALTER", "ALWAYS", "ANALYZE", "AND", "AS", "ASC", "ATTACH", "AUTOINCREMENT", 
  "BEFORE", "BEGIN", "BETWEEN", "BINARY", "BY", "CASCADE", "CASE", "CAST", "CHECK", "COLLATE", "COLUMN", "COMMIT", 
  "CONFLICT", "CONSTRAINT", "COPY", "CREATE", "CROSS", "CSV", "CUME_DIST", "CURRENT", "CURRENT_DATE", "CURRENT_TIME", 
  "CURRENT_TIMESTAMP", "DATABASE", "DEFAULT", "DEFERRABLE", "DEFERRED", "DELETE", "DENSE_RANK", "DESC", "DETACH", 
  "DISTINCT", "DO", "DROP", "EACH", "ELSE", "END", "ENGINE", "ESCAPE", "EXCEPT", "EXCLUDE", "EXCLUSIVE", "EXISTS", 
  "EXPLAIN", "FAIL", "FALSE", "FILTER", "FIRST", "FIRST_VALUE", "FOLLOWING", "FOR", "FOREIGN", "FORMAT", "FROM", 
  "FULL", "GENERATED", "GLOB", "GROUP", "GROUPS", "HAVING", "IF", "IGNORE", "IMMEDIATE", "IN", "INDEX", "INDEXED", 
  "INITIALLY", "INNER", "INSERT", "INSTEAD", "INTERSECT", "INTO", "IS", "ISNULL", "JOIN", "KEY", "LAG", "LAST", 
  "LAST_VALUE", "LEAD", "LEFT", "LIKE", "LIMIT", "MATCH", "NATURAL", "NO", "NOT", "NOTHING", "NOTNULL", "NTH_VALUE", 
  "NTILE", "NULL", "NULLS", "OF", "OFFSET", "ON", "OR", "ORDER", "OTHERS", "OUTER", "OVER", "PARTITION", "PERCENT_RANK", 
  "PLAN", "PRAGMA", "PRECEDING", "PRIMARY", "QUERY", "RAISE", "RANGE", "RANK", "RECURSIVE", "REFERENCES", "REGEXP", 
  "REINDEX", "RELEASE", "RENAME", "REPLACE", "RESTRICT", "RETURNING", "RIGHT", "ROLLBACK", "ROW", "ROWS", "ROW_NUMBER", 
  "SAVEPOINT", "SELECT", "SET", "STORED", "TABLE", "TEMP", "TEMPORARY", "TEXT", "THEN", "TIES", "TO", "TRANSACTION", 
  "TRIGGER", "TRUE", "TRUNCATE", "UNBOUNDED", "UNION", "UNIQUE", "UPDATE", "USE", "USING", "VACUUM", "VALUES", 
  "VIEW", "VIRTUAL", "WHEN", "WHERE", "WINDOW", "WITH", "WITHOUT"}
NameKeywords == {
  "ABORT", "ACTION", "ADD", "AFTER", "ALL", "ALTER", "ALWAYS", "ANALYZE", "AND", "AS", "ASC", "ATTACH", "AUTOINCREMENT", 
  "BEFORE", "BEGIN", "BETWEEN", "BY", "CASCADE", "CASE", "CAST", "CHECK", "COLLATE", "COLUMN", "COMMIT", "CONFLICT", 
  "CONSTRAINT", "CREATE", "CROSS", "CUME_DIST", "CURRENT", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", 
  "DATABASE", "DEFAULT", "DEFERRABLE", "DEFERRED", "DELETE", "DENSE_RANK", "DESC", "DETACH", "DISTINCT", "DROP", 
  "EACH", "ELSE", "END", "ESCAPE", "EXCEPT", "EXCLUDE", "EXCLUSIVE", "EXISTS", "EXPLAIN", "FAIL", "FALSE", "FILTER", 
  "FIRST", "FIRST_VALUE", "FOLLOWING", "FOR", "FOREIGN", "FROM", "FULL", "GENERATED", "GLOB", "GROUP", "GROUPS", 
  "HAVING", "IF", "IGNORE", "IMMEDIATE", "IN", "INDEX", "INDEXED", "INITIALLY", "INNER", "INSERT", "INSTEAD", "INTERSECT", 
  "INTO", "IS", "ISNULL", "JOIN", "KEY", "LAG", "LAST", "LAST_VALUE", "LEAD", "LEFT", "LIKE", "LIMIT", "MATCH", 
  "NATURAL", "NO", "NOT", "NOTNULL", "NTH_VALUE", "NTILE", "NULL", "NULLS", "OF", "OFFSET", "ON", "OR", "ORDER", 
  "OUTER", "OVER", "PARTITION", "PERCENT_RANK", "PLAN", "PRAGMA", "PRECEDING", "PRIMARY", "QUERY", "RAISE", "RANGE", 
  "RANK", "RECURSIVE", "REFERENCES", "REGEXP", "REINDEX", "RELEASE", "RENAME", "REPLACE", "RESTRICT", "RIGHT", 
  "ROLLBACK", "ROW", "ROWS", "ROW_NUMBER", "SAVEPOINT", "SELECT", "SET", "STORED", "TABLE", "TEMP", "TEMPORARY", 
  "TEXT", "THEN", "TO", "TRANSACTION", "TRIGGER", "TRUE", "UNBOUNDED", "UNION", "UNIQUE", "UPDATE", "USING", "VACUUM", 
  "VALUES", "VIEW", "VIRTUAL", "WHEN", "WHERE", "WINDOW", "WITH", "WITHOUT"}
Puncts == {
  "!=", "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", ";", "<", "<<", "<=", "<>", "=", "==", ">", ">=", ">>", 
  "@", "|", "||", "~"}
Rules == [
  add_table_column |-> gS(<<gT("ADD"), gO(gT("COLUMN")), gN("column_def")>>),
  add_table_index |-> gS(<<gT("ADD"), gN("column_constraint"), gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>),
  alter_database_stmt |-> gS(<<gT("ALTER"), gT("DATABASE"), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gN("rename_database_to")>>),
  alter_table_stmt |-> gS(<<gT("ALTER"), gT("TABLE"), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gA(<<gN("rename_table_to"), gN("rename_table_colum"), gN("add_table_index"), gN("add_table_column"), gN("drop_table_column")>>)>>),
  analyze_stmt |-> gS(<<gT("ANALYZE"), gO(gA(<<gN("any_name"), gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>)>>))>>),
  and_expr |-> gS(<<gN("comparison_expr"), gT("AND"), gN("comparison_expr")>>),
  any_name |-> gA(<<gT("IDENT"), gT("KEYWORD"), gT("STR"), gS(<<gT("("), gN("any_name"), gT(")")>>)>>),
  asc_desc |-> gA(<<gT("ASC"), gT("DESC")>>),
  attach_stmt |-> gS(<<gT("ATTACH"), gO(gT("DATABASE")), gN("expr"), gT("AS"), gN("any_name")>>),
  begin_stmt |-> gS(<<gT("BEGIN"), gO(gA(<<gT("DEFERRED"), gT("IMMEDIATE"), gT("EXCLUSIVE")>>)), gO(gS(<<gT("TRANSACTION"), gO(gN("any_name"))>>))>>),
  bind_param |-> gT("BIND"),
  column_alias |-> gA(<<gT("IDENT"), gT("STR")>>),
  column_constraint |-> gS(<<gO(gS(<<gT("CONSTRAINT"), gN("any_name")>>)), gA(<<gN("primary_key_constraint"), gN("index_constraint"), gS(<<gA(<<gS(<<gO(gT("NOT")), gT("NULL")>>), gT("UNIQUE")>>), gO(gN("conflict_clause"))>>), gS(<<gT("CHECK"), gT("("), gN("expr"), gT(")")>>), gS(<<gT("DEFAULT"), gA(<<gN("signed_number"), gN("literal_value"), gS(<<gT("("), gN("expr"), gT(")")>>)>>)>>), gS(<<gT("COLLATE"), gN("any_name")>>), gN("foreign_key_clause"), gS(<<gO(gS(<<gT("GENERATED"), gT("ALWAYS")>>)), gT("AS"), gT("("), gN("expr"), gT(")"), gO(gA(<<gT("STORED"), gT("VIRTUAL")>>))>>)>>)>>),
  column_def |-> gS(<<gN("any_name"), gO(gN("type_name")), gZ(gN("column_constraint"))>>),
  column_name_list |-> gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>),
  commit_stmt |-> gS(<<gA(<<gT("COMMIT"), gT("END")>>), gO(gT("TRANSACTION"))>>),
  common_table_expression |-> gS(<<gN("any_name"), gO(gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>)), gT("AS"), gT("("), gN("select_stmt"), gT(")")>>),
  common_table_stmt |-> gS(<<gT("WITH"), gO(gT("RECURSIVE")), gN("common_table_expression"), gZ(gS(<<gT(","), gN("common_table_expression")>>))>>),
  comparison_expr |-> gS(<<gN("any_name"), gA(<<gT("="), gT("!="), gT("<>"), gT("<"), gT("<="), gT(">"), gT(">=")>>), gN("literal_value")>>),
  compound_operator |-> gA(<<gS(<<gT("UNION"), gO(gT("ALL"))>>), gT("INTERSECT"), gT("EXCEPT")>>),
  condition |-> gA(<<gN("comparison_expr"), gN("and_expr"), gN("or_expr")>>),
  conflict_clause |-> gS(<<gT("ON"), gT("CONFLICT"), gA(<<gT("ROLLBACK"), gT("ABORT"), gT("FAIL"), gT("IGNORE"), gT("REPLACE")>>)>>),
  copy_column_list |-> gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>),
  copy_format |-> gS(<<gO(gT("FORMAT")), gA(<<gT("TEXT"), gT("CSV"), gT("BINARY")>>)>>),
  copy_stmt |-> gS(<<gT("COPY"), gN("qualified_table_name"), gO(gN("copy_column_list")), gT("FROM"), gN("any_name"), gO(gT("WITH")), gO(gN("copy_format"))>>),
  create_database_stmt |-> gS(<<gT("CREATE"), gT("DATABASE"), gO(gN("if_not_exists")), gN("any_name")>>),
  create_index_stmt |-> gS(<<gT("CREATE"), gO(gT("UNIQUE")), gT("INDEX"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("ON"), gN("any_name"), gT("("), gN("indexed_column"), gZ(gS(<<gT(","), gN("indexed_column")>>)), gT(")"), gO(gS(<<gT("WHERE"), gN("expr")>>))>>),
  create_table_stmt |-> gS(<<gT("CREATE"), gO(gA(<<gT("TEMP"), gT("TEMPORARY")>>)), gT("TABLE"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gA(<<gS(<<gT("("), gN("column_def"), gZ(gS(<<gT(","), gN("column_def")>>)), gZ(gS(<<gT(","), gN("table_constraint")>>)), gT(")"), gO(gA(<<gN("table_options"), gN("mysql_table_options")>>))>>), gS(<<gT("AS"), gN("select_stmt")>>)>>)>>),
  create_trigger_stmt |-> gS(<<gT("CREATE"), gO(gA(<<gT("TEMP"), gT("TEMPORARY")>>)), gT("TRIGGER"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gA(<<gT("BEFORE"), gT("AFTER"), gS(<<gT("INSTEAD"), gT("OF")>>)>>)), gA(<<gT("DELETE"), gT("INSERT"), gS(<<gT("UPDATE"), gO(gS(<<gT("OF"), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>))>>))>>)>>), gT("ON"), gN("any_name"), gO(gS(<<gT("FOR"), gT("EACH"), gT("ROW")>>)), gO(gS(<<gT("WHEN"), gN("expr")>>)), gT("BEGIN"), gP(gS(<<gA(<<gN("update_stmt"), gN("insert_stmt"), gN("delete_stmt"), gN("select_stmt")>>), gT(";")>>)), gT("END")>>),
  create_view_stmt |-> gS(<<gT("CREATE"), gO(gA(<<gT("TEMP"), gT("TEMPORARY")>>)), gT("VIEW"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>)), gT("AS"), gN("select_stmt")>>),
  create_virtual_table_stmt |-> gS(<<gT("CREATE"), gT("VIRTUAL"), gT("TABLE"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("USING"), gN("any_name"), gO(gS(<<gT("("), gN("module_argument"), gZ(gS(<<gT(","), gN("module_argument")>>)), gT(")")>>))>>),
  cte_table_name |-> gS(<<gN("any_name"), gO(gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>))>>),
  delete_stmt |-> gS(<<gO(gN("with_clause")), gT("DELETE"), gT("FROM"), gN("qualified_table_name"), gO(gS(<<gT("WHERE"), gN("expr")>>)), gO(gN("returning_clause"))>>),
  delete_stmt_limited |-> gS(<<gO(gN("with_clause")), gT("DELETE"), gT("FROM"), gN("qualified_table_name"), gO(gS(<<gT("WHERE"), gN("expr")>>)), gO(gN("returning_clause")), gO(gS(<<gO(gN("order_by_stmt")), gN("limit_stmt")>>))>>),
  detach_stmt |-> gS(<<gT("DETACH"), gO(gT("DATABASE")), gN("any_name")>>),
  drop_database_stmt |-> gS(<<gT("DROP"), gT("DATABASE"), gO(gN("if_exists")), gN("any_name")>>),
  drop_index_stmt |-> gS(<<gT("DROP"), gT("INDEX"), gO(gN("if_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>),
  drop_table_column |-> gS(<<gT("DROP"), gO(gT("COLUMN")), gN("any_name")>>),
  drop_table_stmt |-> gS(<<gT("DROP"), gT("TABLE"), gO(gN("if_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gS(<<gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>))>>), gO(gT("CASCADE"))>>),
  drop_trigger_stmt |-> gS(<<gT("DROP"), gT("TRIGGER"), gO(gN("if_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>),
  drop_view_stmt |-> gS(<<gT("DROP"), gT("VIEW"), gO(gN("if_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>),
  error_message |-> gT("STR"),
  expr |-> gS(<<gN("operand"), gZ(gN("suffix"))>>),
  filter_clause |-> gS(<<gT("FILTER"), gT("("), gT("WHERE"), gN("expr"), gT(")")>>),
  foreign_key_clause |-> gS(<<gT("REFERENCES"), gN("any_name"), gO(gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>)), gZ(gA(<<gS(<<gT("ON"), gA(<<gT("DELETE"), gT("UPDATE")>>), gA(<<gS(<<gT("SET"), gA(<<gT("NULL"), gT("DEFAULT")>>)>>), gT("CASCADE"), gT("RESTRICT"), gS(<<gT("NO"), gT("ACTION")>>)>>)>>), gS(<<gT("MATCH"), gN("any_name")>>)>>)), gO(gS(<<gO(gT("NOT")), gT("DEFERRABLE"), gO(gS(<<gT("INITIALLY"), gA(<<gT("DEFERRED"), gT("IMMEDIATE")>>)>>))>>))>>),
  frame_clause |-> gS(<<gA(<<gT("RANGE"), gT("ROWS"), gT("GROUPS")>>), gA(<<gN("frame_single"), gS(<<gT("BETWEEN"), gN("frame_left"), gT("AND"), gN("frame_right")>>)>>)>>),
  frame_left |-> gA(<<gS(<<gN("expr"), gT("PRECEDING")>>), gS(<<gN("expr"), gT("FOLLOWING")>>), gS(<<gT("CURRENT"), gT("ROW")>>), gS(<<gT("UNBOUNDED"), gT("PRECEDING")>>)>>),
  frame_right |-> gA(<<gS(<<gN("expr"), gT("PRECEDING")>>), gS(<<gN("expr"), gT("FOLLOWING")>>), gS(<<gT("CURRENT"), gT("ROW")>>), gS(<<gT("UNBOUNDED"), gT("FOLLOWING")>>)>>),
  frame_single |-> gA(<<gS(<<gN("expr"), gT("PRECEDING")>>), gS(<<gT("UNBOUNDED"), gT("PRECEDING")>>), gS(<<gT("CURRENT"), gT("ROW")>>)>>),
  frame_spec |-> gS(<<gN("frame_clause"), gO(gS(<<gT("EXCLUDE"), gA(<<gS(<<gT("NO"), gT("OTHERS")>>), gS(<<gT("CURRENT"), gT("ROW")>>), gT("GROUP"), gT("TIES")>>)>>))>>),
  from |-> gA(<<gN("from_table"), gN("from_function"), gN("from_select"), gN("from_table_or_subquery")>>),
  from_function |-> gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("("), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>)), gT(")"), gO(gS(<<gO(gT("AS")), gN("any_name")>>))>>),
  from_select |-> gS(<<gT("("), gN("select_stmt"), gT(")"), gO(gS(<<gO(gT("AS")), gN("any_name")>>))>>),
  from_table |-> gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gS(<<gO(gT("AS")), gN("any_name")>>)), gO(gA(<<gS(<<gT("INDEXED"), gT("BY"), gN("any_name")>>), gS(<<gT("NOT"), gT("INDEXED")>>)>>))>>),
  from_table_or_subquery |-> gS(<<gT("("), gA(<<gS(<<gN("table_or_subquery"), gZ(gS(<<gT(","), gN("table_or_subquery")>>))>>), gN("join_clause")>>), gT(")")>>),
  function |-> gS(<<gN("any_name"), gT("("), gO(gA(<<gS(<<gO(gT("DISTINCT")), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>))>>), gT("*")>>)), gT(")"), gO(gN("filter_clause")), gO(gN("over_clause"))>>),
  if_exists |-> gS(<<gT("IF"), gT("EXISTS")>>),
  if_not_exists |-> gS(<<gT("IF"), gT("NOT"), gT("EXISTS")>>),
  index_constraint |-> gS(<<gT("INDEX"), gN("any_name")>>),
  indexed_column |-> gS(<<gA(<<gN("any_name"), gN("expr")>>), gO(gS(<<gT("COLLATE"), gN("any_name")>>)), gO(gN("asc_desc"))>>),
  insert_stmt |-> gS(<<gO(gN("with_clause")), gA(<<gT("INSERT"), gT("REPLACE"), gS(<<gT("INSERT"), gT("OR"), gA(<<gT("REPLACE"), gT("ROLLBACK"), gT("ABORT"), gT("FAIL"), gT("IGNORE")>>)>>)>>), gT("INTO"), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gS(<<gT("AS"), gN("any_name")>>)), gO(gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>)), gA(<<gS(<<gA(<<gN("values_clause"), gN("select_stmt")>>), gO(gN("upsert_clause"))>>), gS(<<gT("DEFAULT"), gT("VALUES")>>)>>), gO(gN("returning_clause"))>>),
  join_clause |-> gS(<<gN("table_or_subquery"), gZ(gS(<<gN("join_operator"), gN("table_or_subquery"), gO(gN("join_constraint"))>>))>>),
  join_constraint |-> gA(<<gS(<<gT("ON"), gN("expr")>>), gS(<<gT("USING"), gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")")>>)>>),
  join_operator |-> gA(<<gT(","), gS(<<gO(gT("NATURAL")), gO(gA(<<gS(<<gT("LEFT"), gO(gT("OUTER"))>>), gT("INNER"), gT("CROSS")>>)), gT("JOIN")>>)>>),
  limit_stmt |-> gS(<<gT("LIMIT"), gN("expr"), gO(gS(<<gA(<<gT("OFFSET"), gT(",")>>), gN("expr")>>))>>),
  literal_value |-> gA(<<gN("signed_number"), gN("string_literal"), gT("BLOB"), gT("NULL"), gT("TRUE"), gT("FALSE"), gT("CURRENT_TIME"), gT("CURRENT_DATE"), gT("CURRENT_TIMESTAMP"), gN("bind_param")>>),
  module_argument |-> gA(<<gN("expr"), gN("column_def")>>),
  mysql_table_options |-> gS(<<gT("ENGINE"), gT("="), gT("IDENT")>>),
  operand |-> gS(<<gZ(gA(<<gS(<<gN("any_name"), gA(<<gT("+"), gT("-"), gT("*"), gT("/"), gT("%")>>)>>), gN("unary_operator")>>)), gN("primary")>>),
  or_expr |-> gS(<<gN("comparison_expr"), gT("OR"), gN("comparison_expr")>>),
  order_by_stmt |-> gS(<<gT("ORDER"), gT("BY"), gN("ordering_term"), gZ(gS(<<gT(","), gN("ordering_term")>>))>>),
  ordering_term |-> gS(<<gN("expr"), gO(gS(<<gT("COLLATE"), gN("any_name")>>)), gO(gN("asc_desc")), gO(gS(<<gT("NULLS"), gA(<<gT("FIRST"), gT("LAST")>>)>>))>>),
  over_clause |-> gS(<<gT("OVER"), gA(<<gN("any_name"), gS(<<gT("("), gO(gN("any_name")), gO(gS(<<gT("PARTITION"), gT("BY"), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>))>>)), gO(gS(<<gT("ORDER"), gT("BY"), gN("ordering_term"), gZ(gS(<<gT(","), gN("ordering_term")>>))>>)), gO(gN("frame_spec")), gT(")")>>)>>)>>),
  parse |-> gS(<<gZ(gN("sql_stmt_list")), gT("EOF")>>),
  pragma_stmt |-> gS(<<gT("PRAGMA"), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gA(<<gS(<<gT("="), gN("pragma_value")>>), gS(<<gT("("), gN("pragma_value"), gT(")")>>)>>))>>),
  pragma_value |-> gA(<<gN("signed_number"), gN("any_name"), gT("STR")>>),
  primary |-> gA(<<gN("literal_value"), gN("bind_param"), gN("system_var"), gN("user_var"), gS(<<gO(gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT(".")>>)), gN("any_name")>>), gN("comparison_expr"), gN("and_expr"), gN("or_expr"), gN("function"), gS(<<gT("("), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>)), gT(")")>>), gS(<<gT("CAST"), gT("("), gN("expr"), gT("AS"), gN("type_name"), gT(")")>>), gS(<<gO(gS(<<gO(gT("NOT")), gT("EXISTS")>>)), gT("("), gN("select_stmt"), gT(")")>>), gS(<<gT("CASE"), gO(gN("expr")), gP(gS(<<gT("WHEN"), gN("expr"), gT("THEN"), gN("expr")>>)), gO(gS(<<gT("ELSE"), gN("expr")>>)), gT("END")>>), gN("raise_function")>>),
  primary_key_constraint |-> gS(<<gT("PRIMARY"), gT("KEY"), gO(gN("asc_desc")), gO(gN("conflict_clause")), gO(gT("AUTOINCREMENT"))>>),
  primary_key_def |-> gS(<<gT("PRIMARY"), gT("KEY"), gT("("), gN("indexed_column"), gZ(gS(<<gT(","), gN("indexed_column")>>)), gT(")"), gO(gN("conflict_clause"))>>),
  qualified_table_name |-> gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gS(<<gT("AS"), gN("any_name")>>)), gO(gA(<<gS(<<gT("INDEXED"), gT("BY"), gN("any_name")>>), gS(<<gT("NOT"), gT("INDEXED")>>)>>))>>),
  raise_function |-> gS(<<gT("RAISE"), gT("("), gA(<<gT("IGNORE"), gS(<<gA(<<gT("ROLLBACK"), gT("ABORT"), gT("FAIL")>>), gT(","), gN("error_message")>>)>>), gT(")")>>),
  reindex_stmt |-> gS(<<gT("REINDEX"), gO(gA(<<gN("any_name"), gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>)>>))>>),
  release_stmt |-> gS(<<gT("RELEASE"), gO(gT("SAVEPOINT")), gN("any_name")>>),
  rename_database_to |-> gS(<<gT("RENAME"), gT("TO"), gN("any_name")>>),
  rename_table_colum |-> gS(<<gT("RENAME"), gO(gT("COLUMN")), gN("any_name"), gT("TO"), gN("any_name")>>),
  rename_table_to |-> gS(<<gT("RENAME"), gT("TO"), gN("any_name")>>),
  result_column |-> gA(<<gT("*"), gS(<<gN("any_name"), gT("."), gT("*")>>), gS(<<gN("expr"), gO(gS(<<gO(gT("AS")), gN("column_alias")>>))>>)>>),
  returning_clause |-> gS(<<gT("RETURNING"), gN("result_column"), gZ(gS(<<gT(","), gN("result_column")>>))>>),
  rollback_stmt |-> gS(<<gT("ROLLBACK"), gO(gT("TRANSACTION")), gO(gS(<<gT("TO"), gO(gT("SAVEPOINT")), gN("any_name")>>))>>),
  s_copy |-> gS(<<gT("COPY"), gN("s_table"), gO(gN("copy_column_list")), gT("FROM"), gN("any_name"), gO(gT("WITH")), gO(gN("copy_format"))>>),
  s_count |-> gA(<<gN("signed_number"), gN("bind_param")>>),
  s_create_index |-> gS(<<gT("CREATE"), gO(gT("UNIQUE")), gT("INDEX"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("ON"), gN("any_name"), gT("("), gN("s_indexed"), gZ(gS(<<gT(","), gN("s_indexed")>>)), gT(")"), gO(gS(<<gT("WHERE"), gN("expr")>>))>>),
  s_create_table |-> gS(<<gT("CREATE"), gO(gA(<<gT("TEMP"), gT("TEMPORARY")>>)), gT("TABLE"), gO(gN("if_not_exists")), gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("("), gN("column_def"), gZ(gS(<<gT(","), gN("column_def")>>)), gZ(gS(<<gT(","), gN("s_table_constraint")>>)), gT(")"), gO(gA(<<gN("table_options"), gN("mysql_table_options")>>))>>),
  s_delete |-> gS(<<gT("DELETE"), gT("FROM"), gN("s_table"), gO(gS(<<gT("WHERE"), gN("condition")>>))>>),
  s_indexed |-> gS(<<gN("any_name"), gO(gS(<<gT("COLLATE"), gN("any_name")>>)), gO(gN("asc_desc"))>>),
  s_insert |-> gS(<<gA(<<gT("INSERT"), gT("REPLACE"), gS(<<gT("INSERT"), gT("OR"), gA(<<gT("REPLACE"), gT("ROLLBACK"), gT("ABORT"), gT("FAIL"), gT("IGNORE")>>)>>)>>), gT("INTO"), gN("s_table"), gA(<<gS(<<gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")"), gT("VALUES"), gN("s_row"), gZ(gS(<<gT(","), gN("s_row")>>))>>), gS(<<gT("VALUES"), gN("s_named_row"), gZ(gS(<<gT(","), gN("s_named_row")>>))>>)>>)>>),
  s_limit |-> gS(<<gT("LIMIT"), gN("s_count"), gO(gS(<<gA(<<gT("OFFSET"), gT(",")>>), gN("s_count")>>))>>),
  s_named |-> gS(<<gN("any_name"), gT("="), gN("literal_value")>>),
  s_named_row |-> gS(<<gT("("), gN("s_named"), gZ(gS(<<gT(","), gN("s_named")>>)), gT(")")>>),
  s_result |-> gN("result_column"),
  s_rollback |-> gS(<<gT("ROLLBACK"), gO(gT("TRANSACTION"))>>),
  s_row |-> gS(<<gT("("), gN("literal_value"), gZ(gS(<<gT(","), gN("literal_value")>>)), gT(")")>>),
  s_select |-> gS(<<gT("SELECT"), gO(gA(<<gT("DISTINCT"), gT("ALL")>>)), gN("s_result"), gZ(gS(<<gT(","), gN("s_result")>>)), gO(gS(<<gT("FROM"), gO(gS(<<gN("from_table"), gZ(gS(<<gT(","), gN("from_table")>>))>>))>>)), gO(gS(<<gT("WHERE"), gN("expr")>>)), gO(gS(<<gT("GROUP"), gT("BY"), gN("expr")>>)), gO(gN("order_by_stmt")), gO(gN("s_limit"))>>),
  s_set |-> gS(<<gN("any_name"), gT("="), gA(<<gN("literal_value"), gS(<<gN("any_name"), gA(<<gT("+"), gT("-"), gT("*"), gT("/"), gT("%")>>), gN("expr")>>)>>)>>),
  s_table |-> gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>),
  s_table_constraint |-> gS(<<gO(gS(<<gT("CONSTRAINT"), gN("any_name")>>)), gA(<<gS(<<gT("PRIMARY"), gT("KEY"), gT("("), gN("s_indexed"), gZ(gS(<<gT(","), gN("s_indexed")>>)), gT(")"), gO(gN("conflict_clause"))>>), gN("unique_key_def"), gS(<<gT("CHECK"), gT("("), gN("expr"), gT(")")>>), gS(<<gT("FOREIGN"), gT("KEY"), gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")"), gN("foreign_key_clause")>>)>>)>>),
  s_update |-> gS(<<gT("UPDATE"), gO(gS(<<gT("OR"), gA(<<gT("ROLLBACK"), gT("ABORT"), gT("REPLACE"), gT("FAIL"), gT("IGNORE")>>)>>)), gN("s_table"), gT("SET"), gN("s_set"), gZ(gS(<<gT(","), gN("s_set")>>)), gO(gS(<<gT("WHERE"), gN("condition")>>))>>),
  savepoint_stmt |-> gS(<<gT("SAVEPOINT"), gN("any_name")>>),
  script |-> gS(<<gO(gN("script_list")), gT("EOF")>>),
  script_list |-> gS(<<gZ(gT(";")), gN("stmt"), gZ(gS(<<gP(gT(";")), gN("stmt")>>)), gZ(gT(";"))>>),
  select_core |-> gA(<<gS(<<gT("SELECT"), gO(gA(<<gT("DISTINCT"), gT("ALL")>>)), gN("result_column"), gZ(gS(<<gT(","), gN("result_column")>>)), gO(gS(<<gT("FROM"), gA(<<gO(gS(<<gN("from"), gZ(gS(<<gT(","), gN("from")>>))>>)), gN("join_clause")>>)>>)), gO(gS(<<gT("WHERE"), gN("expr")>>)), gO(gS(<<gT("GROUP"), gT("BY"), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>)), gO(gS(<<gT("HAVING"), gN("expr")>>))>>)), gO(gS(<<gT("WINDOW"), gN("any_name"), gT("AS"), gN("window_defn"), gZ(gS(<<gT(","), gN("any_name"), gT("AS"), gN("window_defn")>>))>>))>>), gN("values_clause")>>),
  select_stmt |-> gS(<<gO(gN("common_table_stmt")), gN("select_core"), gZ(gS(<<gN("compound_operator"), gN("select_core")>>)), gO(gN("order_by_stmt")), gO(gN("limit_stmt"))>>),
  signed_number |-> gS(<<gO(gA(<<gT("+"), gT("-")>>)), gT("NUM")>>),
  sql_stmt |-> gS(<<gO(gS(<<gT("EXPLAIN"), gO(gS(<<gT("QUERY"), gT("PLAN")>>))>>)), gA(<<gN("alter_database_stmt"), gN("alter_table_stmt"), gN("analyze_stmt"), gN("attach_stmt"), gN("begin_stmt"), gN("commit_stmt"), gN("create_database_stmt"), gN("create_index_stmt"), gN("create_table_stmt"), gN("create_trigger_stmt"), gN("create_view_stmt"), gN("create_virtual_table_stmt"), gN("delete_stmt"), gN("delete_stmt_limited"), gN("detach_stmt"), gN("drop_database_stmt"), gN("drop_index_stmt"), gN("drop_table_stmt"), gN("drop_trigger_stmt"), gN("drop_view_stmt"), gN("insert_stmt"), gN("pragma_stmt"), gN("reindex_stmt"), gN("release_stmt"), gN("rollback_stmt"), gN("savepoint_stmt"), gN("select_stmt"), gN("update_stmt"), gN("update_stmt_limited"), gN("use_stmt"), gN("vacuum_stmt"), gN("copy_stmt"), gN("truncate_stmt")>>)>>),
  sql_stmt_list |-> gS(<<gZ(gT(";")), gN("sql_stmt"), gZ(gS(<<gP(gT(";")), gN("sql_stmt")>>)), gZ(gT(";"))>>),
  stmt |-> gA(<<gN("alter_database_stmt"), gN("alter_table_stmt"), gN("begin_stmt"), gN("commit_stmt"), gN("create_database_stmt"), gN("s_create_index"), gN("s_create_table"), gN("s_delete"), gN("drop_database_stmt"), gN("drop_index_stmt"), gN("drop_table_stmt"), gN("s_insert"), gN("s_rollback"), gN("s_select"), gN("s_update"), gN("use_stmt"), gN("vacuum_stmt"), gN("s_copy"), gN("truncate_stmt")>>),
  string_literal |-> gT("STR"),
  suffix |-> gA(<<gS(<<gT("||"), gN("operand")>>), gS(<<gA(<<gT("<<"), gT(">>"), gT("&"), gT("|")>>), gN("operand")>>), gS(<<gA(<<gT("=="), gT("IS"), gS(<<gT("IS"), gT("NOT")>>), gT("IN"), gT("LIKE"), gT("GLOB"), gT("MATCH"), gT("REGEXP")>>), gN("operand")>>), gS(<<gT("COLLATE"), gN("any_name")>>), gS(<<gO(gT("NOT")), gA(<<gT("LIKE"), gT("GLOB"), gT("REGEXP"), gT("MATCH")>>), gN("expr"), gO(gS(<<gT("ESCAPE"), gN("operand")>>))>>), gA(<<gT("ISNULL"), gT("NOTNULL"), gS(<<gT("NOT"), gT("NULL")>>)>>), gS(<<gT("IS"), gO(gT("NOT")), gN("operand")>>), gS(<<gO(gT("NOT")), gT("BETWEEN"), gN("expr"), gT("AND"), gN("operand")>>), gS(<<gO(gT("NOT")), gT("IN"), gA(<<gS(<<gT("("), gO(gA(<<gN("select_stmt"), gS(<<gN("expr"), gZ(gS(<<gT(","), gN("expr")>>))>>)>>)), gT(")")>>), gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name")>>), gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("("), gO(gS(<<gN("expr"), gZ(gS(<<gT(","), gN("expr")>>))>>)), gT(")")>>)>>)>>)>>),
  system_var |-> gS(<<gT("SYSVAR"), gO(gS(<<gT("."), gT("IDENT")>>))>>),
  table_constraint |-> gS(<<gO(gS(<<gT("CONSTRAINT"), gN("any_name")>>)), gA(<<gN("primary_key_def"), gN("unique_key_def"), gS(<<gT("CHECK"), gT("("), gN("expr"), gT(")")>>), gS(<<gT("FOREIGN"), gT("KEY"), gT("("), gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>)), gT(")"), gN("foreign_key_clause")>>)>>)>>),
  table_options |-> gA(<<gS(<<gT("WITHOUT"), gT("IDENT")>>), gS(<<gT("WITH"), gT("("), gN("with_param"), gZ(gS(<<gT(","), gN("column_def")>>)), gT(")")>>)>>),
  table_or_subquery |-> gA(<<gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gO(gS(<<gO(gT("AS")), gN("any_name")>>)), gO(gA(<<gS(<<gT("INDEXED"), gT("BY"), gN("any_name")>>), gS(<<gT("NOT"), gT("INDEXED")>>)>>))>>), gS(<<gO(gS(<<gN("any_name"), gT(".")>>)), gN("any_name"), gT("("), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>)), gT(")"), gO(gS(<<gO(gT("AS")), gN("any_name")>>))>>), gS(<<gT("("), gA(<<gS(<<gN("table_or_subquery"), gZ(gS(<<gT(","), gN("table_or_subquery")>>))>>), gN("join_clause")>>), gT(")")>>), gS(<<gT("("), gN("select_stmt"), gT(")"), gO(gS(<<gO(gT("AS")), gN("any_name")>>))>>)>>),
  truncate_stmt |-> gS(<<gT("TRUNCATE"), gO(gT("TABLE")), gS(<<gN("any_name"), gZ(gS(<<gT(","), gN("any_name")>>))>>)>>),
  type_name |-> gS(<<gP(gN("any_name")), gO(gA(<<gS(<<gT("("), gN("signed_number"), gT(")")>>), gS(<<gT("("), gN("signed_number"), gT(","), gN("signed_number"), gT(")")>>)>>))>>),
  unary_operator |-> gA(<<gT("-"), gT("+"), gT("~"), gT("NOT")>>),
  unique_key_def |-> gS(<<gT("UNIQUE"), gT("("), gN("indexed_column"), gZ(gS(<<gT(","), gN("indexed_column")>>)), gT(")"), gO(gN("conflict_clause"))>>),
  update_column_set |-> gS(<<gA(<<gN("any_name"), gN("column_name_list")>>), gT("="), gN("expr")>>),
  update_stmt |-> gS(<<gO(gN("with_clause")), gT("UPDATE"), gO(gS(<<gT("OR"), gA(<<gT("ROLLBACK"), gT("ABORT"), gT("REPLACE"), gT("FAIL"), gT("IGNORE")>>)>>)), gN("qualified_table_name"), gT("SET"), gN("update_column_set"), gZ(gS(<<gT(","), gN("update_column_set")>>)), gO(gS(<<gT("FROM"), gA(<<gS(<<gN("table_or_subquery"), gZ(gS(<<gT(","), gN("table_or_subquery")>>))>>), gN("join_clause")>>)>>)), gO(gS(<<gT("WHERE"), gN("expr")>>)), gO(gN("returning_clause"))>>),
  update_stmt_limited |-> gS(<<gO(gN("with_clause")), gT("UPDATE"), gO(gS(<<gT("OR"), gA(<<gT("ROLLBACK"), gT("ABORT"), gT("REPLACE"), gT("FAIL"), gT("IGNORE")>>)>>)), gN("qualified_table_name"), gT("SET"), gA(<<gN("any_name"), gN("column_name_list")>>), gT("="), gN("expr"), gZ(gS(<<gT(","), gA(<<gN("any_name"), gN("column_name_list")>>), gT("="), gN("expr")>>)), gO(gS(<<gT("WHERE"), gN("expr")>>)), gO(gN("returning_clause")), gO(gS(<<gO(gN("order_by_stmt")), gN("limit_stmt")>>))>>),
  upsert_clause |-> gS(<<gT("ON"), gT("CONFLICT"), gO(gS(<<gT("("), gN("indexed_column"), gZ(gS(<<gT(","), gN("indexed_column")>>)), gT(")"), gO(gS(<<gT("WHERE"), gN("expr")>>))>>)), gT("DO"), gA(<<gT("NOTHING"), gS(<<gT("UPDATE"), gT("SET"), gS(<<gA(<<gN("any_name"), gN("column_name_list")>>), gT("="), gN("expr"), gZ(gS(<<gT(","), gA(<<gN("any_name"), gN("column_name_list")>>), gT("="), gN("expr")>>)), gO(gS(<<gT("WHERE"), gN("expr")>>))>>)>>)>>)>>),
  use_stmt |-> gS(<<gT("USE"), gN("any_name")>>),
  user_var |-> gT("USERVAR"),
  vacuum_stmt |-> gS(<<gT("VACUUM"), gO(gT("ANALYZE")), gO(gN("any_name")), gO(gS(<<gT("INTO"), gN("any_name")>>))>>),
  value_row |-> gS(<<gT("("), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>)), gT(")")>>),
  values_clause |-> gS(<<gT("VALUES"), gN("value_row"), gZ(gS(<<gT(","), gN("value_row")>>))>>),
  window_defn |-> gS(<<gT("("), gO(gN("any_name")), gO(gS(<<gT("PARTITION"), gT("BY"), gN("expr"), gZ(gS(<<gT(","), gN("expr")>>))>>)), gS(<<gT("ORDER"), gT("BY"), gN("ordering_term"), gZ(gS(<<gT(","), gN("ordering_term")>>))>>), gO(gN("frame_spec")), gT(")")>>),
  with_clause |-> gS(<<gT("WITH"), gO(gT("RECURSIVE")), gN("cte_table_name"), gT("AS"), gT("("), gN("select_stmt"), gT(")"), gZ(gS(<<gT(","), gN("cte_table_name"), gT("AS"), gT("("), gN("select_stmt"), gT(")")>>))>>),
  with_param |-> gS(<<gT("IDENT"), gT("="), gN("expr")>>)]
\* the smallest number of tokens derived from a rule
Smallest == [add_table_column |-> 2, add_table_index |-> 5, alter_database_stmt |-> 6, alter_table_stmt |-> 5, analyze_stmt |-> 1, and_expr |-> 7, any_name |-> 1, asc_desc |-> 1, attach_stmt |-> 4, begin_stmt |-> 1, bind_param |-> 1, column_alias |-> 1, column_constraint |-> 1, column_def |-> 1, column_name_list |-> 3, commit_stmt |-> 1, common_table_expression |-> 6, common_table_stmt |-> 7, comparison_expr |-> 3, compound_operator |-> 1, condition |-> 3, conflict_clause |-> 3, copy_column_list |-> 3, copy_format |-> 1, copy_stmt |-> 4, create_database_stmt |-> 3, create_index_stmt |-> 8, create_table_stmt |-> 6, create_trigger_stmt |-> 11, create_view_stmt |-> 6, create_virtual_table_stmt |-> 6, cte_table_name |-> 1, delete_stmt |-> 3, delete_stmt_limited |-> 3, detach_stmt |-> 2, drop_database_stmt |-> 3, drop_index_stmt |-> 3, drop_table_column |-> 2, drop_table_stmt |-> 3, drop_trigger_stmt |-> 3, drop_view_stmt |-> 3, error_message |-> 1, expr |-> 1, filter_clause |-> 5, foreign_key_clause |-> 2, frame_clause |-> 3, frame_left |-> 2, frame_right |-> 2, frame_single |-> 2, frame_spec |-> 3, from |-> 1, from_function |-> 4, from_select |-> 4, from_table |-> 1, from_table_or_subquery |-> 3, function |-> 3, if_exists |-> 2, if_not_exists |-> 3, index_constraint |-> 2, indexed_column |-> 1, insert_stmt |-> 5, join_clause |-> 1, join_constraint |-> 2, join_operator |-> 1, limit_stmt |-> 2, literal_value |-> 1, module_argument |-> 1, mysql_table_options |-> 3, operand |-> 1, or_expr |-> 7, order_by_stmt |-> 3, ordering_term |-> 1, over_clause |-> 2, parse |-> 0, pragma_stmt |-> 2, pragma_value |-> 1, primary |-> 1, primary_key_constraint |-> 2, primary_key_def |-> 5, qualified_table_name |-> 1, raise_function |-> 4, reindex_stmt |-> 1, release_stmt |-> 2, rename_database_to |-> 3, rename_table_colum |-> 4, rename_table_to |-> 3, result_column |-> 1, returning_clause |-> 2, rollback_stmt |-> 1, s_copy |-> 4, s_count |-> 1, s_create_index |-> 8, s_create_table |-> 6, s_delete |-> 3, s_indexed |-> 1, s_insert |-> 9, s_limit |-> 2, s_named |-> 3, s_named_row |-> 5, s_result |-> 1, s_rollback |-> 1, s_row |-> 3, s_select |-> 2, s_set |-> 3, s_table |-> 1, s_table_constraint |-> 4, s_update |-> 6, savepoint_stmt |-> 2, script |-> 0, script_list |-> 1, select_core |-> 2, select_stmt |-> 2, signed_number |-> 1, sql_stmt |-> 1, sql_stmt_list |-> 1, stmt |-> 1, string_literal |-> 1, suffix |-> 1, system_var |-> 1, table_constraint |-> 4, table_options |-> 2, table_or_subquery |-> 1, truncate_stmt |-> 2, type_name |-> 1, unary_operator |-> 1, unique_key_def |-> 4, update_column_set |-> 3, update_stmt |-> 6, update_stmt_limited |-> 6, upsert_clause |-> 4, use_stmt |-> 2, user_var |-> 1, vacuum_stmt |-> 1, value_row |-> 3, values_clause |-> 4, window_defn |-> 5, with_clause |-> 7, with_param |-> 3]
=============================================================================
