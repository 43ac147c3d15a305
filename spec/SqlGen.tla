-------------------------------- MODULE SqlGen --------------------------------
(***************************************************************************)
(* Derivation machine of the dialect: one action per production.  A state  *)
(* holds the tokens written so far (tk), the meaning of the statement being*)
(* written (st) and the statements already finished (out).  Text and       *)
(* meaning are derived side by side and independently of SqlSyntax!Parse,  *)
(* so the invariants below check the two definitions against each other.   *)
(* Structure (clauses, list lengths, optional words) is nondeterministic   *)
(* and enumerated by TLC; leaves (which identifier, literal, operator) are *)
(* drawn at random.                                                        *)
(***************************************************************************)
EXTENDS SqlSyntax, Json

CONSTANTS Kinds,      \* statement kinds to derive
          Lens,       \* lengths of lists
          Stmts,      \* possible numbers of statements of a script
          SelKinds,   \* selector forms
          OrdKinds,   \* ORDER BY term forms
          IdMax, LitMax, \* number of identifiers / literals to draw from
          Semis,      \* possible numbers of ; between statements
          Emit        \* print a vector for every finished script

VARIABLES ph, tk, st, out, left, todo
vars == <<ph, tk, st, out, left, todo>>

(***************************************************************************)
(* Random leaves.  The parameter keeps TLC from caching them as constants. *)
(***************************************************************************)
R(S, d) == RandomElement(IF ph = ph THEN S ELSE {})
N(c, m, d) == c \o ToString(R(1..m, d))
Id(d)   == N("i", IdMax, d)
Uint(d) == N("u", LitMax, d)
Size(d) == N("z", LitMax, d)
Str(d)  == N("s", LitMax, d)
Lit(d)  == LET k == R(1..12, d)
           IN CASE k <= 4 -> N("s", LitMax, d)
                [] k <= 8 -> N("n", LitMax, d)
                [] k = 9  -> N("x", LitMax, d)
                [] k = 10 -> R(LitKeywords, d)
                [] k = 11 -> "?"
                [] OTHER  -> IF R({1, 2}, d) = 1 THEN N("d", LitMax, d) ELSE N("c", LitMax, d)
\* BINARY cannot be written as a column type (known finding)
Type(d) == R(TypeNames \ {"BINARY"}, d)
Fn(d)   == N("f", 8, d)
Aggr(d) == N("g", 5, d)
RECURSIVE Ids(_, _)
Ids(n, d) == IF n = 0 THEN <<>> ELSE <<Id(d)>> \o Ids(n - 1, d)
RECURSIVE Lits(_, _)
Lits(n, d) == IF n = 0 THEN <<>> ELSE <<Lit(d)>> \o Lits(n - 1, d)
\* tokens of a list
RECURSIVE Sep(_)
Sep(xs) == IF Len(xs) <= 1 THEN xs ELSE <<Head(xs), ",">> \o Sep(Tail(xs))
Par(xs) == <<"(">> \o Sep(xs) \o <<")">>

\* x \in Draw(e): e evaluated once
Draw(e) == {TLCEval(e)}
Comma == IF left.fst THEN <<>> ELSE <<",">>

Init == /\ ph = "start" /\ tk = <<>> /\ st = [k |-> ""] /\ out = <<>>
        /\ left = [n |-> 0, fst |-> TRUE, cols |-> <<>>, d |-> 0]
        /\ todo \in Stmts

\* d counts steps; it feeds the random draws
Go(p, toks, s, n, fst) ==
  /\ ph' = p /\ tk' = tk \o toks /\ st' = s
  /\ left' = [left EXCEPT !.n = n, !.fst = fst, !.d = @ + 1]
  /\ UNCHANGED <<out, todo>>
GoCols(p, toks, s, n, fst, cols) ==
  /\ ph' = p /\ tk' = tk \o toks /\ st' = s
  /\ left' = [n |-> n, fst |-> fst, cols |-> cols, d |-> left.d + 1]
  /\ UNCHANGED <<out, todo>>

GenTable(q, d) == IF q THEN LET a == Id(d) b == Id(d) IN [t |-> <<a, ".", b>>, v |-> Tbl(a, b)]
                  ELSE LET a == Id(d) IN [t |-> <<a>>, v |-> Tbl("", a)]

(***************************************************************************)
(* SELECT                                                                  *)
(***************************************************************************)
GenSel(kd, d) ==
  CASE kd = "star"  -> [t |-> <<"*">>, v |-> Sel("C", "*", <<>>)]
    [] kd = "col"   -> LET a == Id(d) IN [t |-> <<a>>, v |-> Sel("C", a, <<>>)]
    [] kd = "qual"  -> LET a == Id(d) b == Id(d) IN [t |-> <<a, ".", b>>, v |-> Sel("C", a \o "." \o b, <<>>)]
    [] kd = "qual3" -> LET a == Id(d) b == Id(d) c == Id(d)
                       IN [t |-> <<a, ".", b, ".", c>>, v |-> Sel("C", a \o "." \o b \o "." \o c, <<>>)]
    [] kd = "tstar" -> LET a == Id(d) IN [t |-> <<a, ".", "*">>, v |-> Sel("C", a \o ".*", <<>>)]
    [] kd = "alias" -> LET a == Id(d) IN [t |-> <<a, "AS", Id(d)>>, v |-> Sel("C", a, <<>>)]
    [] kd = "count" -> LET g == Aggr(d) IN [t |-> <<g, "(", "*", ")">>, v |-> Sel("F", g, <<"*">>)]
    [] kd = "aggr"  -> LET g == Aggr(d) a == Id(d) IN [t |-> <<g, "(", a, ")">>, v |-> Sel("F", g, <<a>>)]
    [] kd = "fn0"   -> LET f == Fn(d) IN [t |-> <<f, "(", ")">>, v |-> Sel("F", f, <<>>)]
    [] kd = "fn1"   -> LET f == Fn(d) a == Id(d) IN [t |-> <<f, "(", a, ")">>, v |-> Sel("F", f, <<a>>)]
    [] kd = "fnlit" -> LET f == Fn(d) a == Id(d) l == Lit(d)
                       IN [t |-> <<f, "(", a, ",", l, ")">>, v |-> Sel("F", f, <<a, l>>)]
    [] kd = "fnalias" -> LET f == Fn(d) l == Lit(d)
                       IN [t |-> <<f, "(", l, ")", "AS", Id(d)>>, v |-> Sel("F", f, <<l>>)]
    [] kd = "expr"  -> LET a == Id(d) o == R(ArithOps, d) n == Uint(d)
                       IN [t |-> <<a, o, n>>, v |-> Sel("C", a \o o \o n, <<>>)]
    [] kd = "lit"   -> LET l == IF R({1, 2}, d) = 1 THEN N("n", LitMax, d) ELSE N("s", LitMax, d)
                       IN [t |-> <<l>>, v |-> Sel("C", l, <<>>)]

EmptySelect == SelectSt(<<>>, <<>>, NoWhere, "", <<>>, "", "")
SelectBegin(n, all) == Go("sel", <<"SELECT">> \o (IF all THEN <<"ALL">> ELSE <<>>), EmptySelect, n, TRUE)
SelectItem ==
  /\ ph = "sel" /\ left.n > 0
  /\ \E kd \in SelKinds : \E x \in Draw(GenSel(kd, left.d)) :
       Go("sel", Comma \o x.t, [st EXCEPT !.sel = Append(@, x.v)], left.n - 1, FALSE)
SelectFrom ==
  /\ ph = "sel" /\ left.n = 0
  /\ \E n \in Lens : Go("from", <<"FROM">>, st, n, TRUE)
FromItem ==
  /\ ph = "from" /\ left.n > 0
  /\ \E q \in BOOLEAN, al \in (IF left.fst THEN BOOLEAN ELSE {FALSE}) : \E x \in Draw(GenTable(q, left.d)) :
       Go("from", Comma \o x.t \o (IF al THEN <<"AS", Id(left.d)>> ELSE <<>>),
          [st EXCEPT !.from = Append(@, x.v)], left.n - 1, FALSE)
FromEnd == ph = "from" /\ left.n = 0 /\ Go("where", <<>>, st, 0, TRUE)

\* The WHERE clause is shared by SELECT, UPDATE and DELETE.
AfterWhere == IF st.k = "SELECT" THEN "group" ELSE "end"
GenCmp(d) == LET a == Id(d) o == R(CmpOps, d) l == Lit(d)
             IN [t |-> <<a, o, l>>, v |-> Cmp(a, NormOp(o), l)]
NoWhereClause == ph = "where" /\ Go(AfterWhere, <<>>, st, 0, TRUE)
WhereCmp == /\ ph = "where"
            /\ \E x \in Draw(GenCmp(left.d)) :
                 Go(AfterWhere, <<"WHERE">> \o x.t, [st EXCEPT !.w = Where("cmp", <<x.v>>)], 0, TRUE)
WhereTwo == /\ ph = "where"
            /\ \E c \in {"and", "or"} : \E x \in Draw(GenCmp(left.d)) : \E y \in Draw(GenCmp(left.d)) :
                 Go(AfterWhere, <<"WHERE">> \o x.t \o <<IF c = "and" THEN "AND" ELSE "OR">> \o y.t,
                    [st EXCEPT !.w = Where(c, <<x.v, y.v>>)], 0, TRUE)
NoGroup == ph = "group" /\ Go("order", <<>>, st, 0, TRUE)
GroupBy == /\ ph = "group"
           /\ \E a \in Draw(Id(left.d)) : Go("order", <<"GROUP", "BY", a>>, [st EXCEPT !.g = a], 0, TRUE)
NoOrder == ph = "order" /\ left.fst /\ left.n = 0 /\ Go("limit", <<>>, st, 0, TRUE)
OrderBegin == ph = "order" /\ left.fst /\ left.n = 0
              /\ \E n \in Lens : Go("orders", <<"ORDER", "BY">>, st, n, TRUE)
OrderItem ==
  /\ ph = "orders" /\ left.n > 0
  /\ \E o \in OrdKinds : \E a \in Draw(Id(left.d)) :
       Go("orders", Comma \o <<a>> \o (IF o = "" THEN <<>> ELSE <<o>>),
          [st EXCEPT !.o = Append(@, Ord(a, IF o = "DESC" THEN "DESC" ELSE "ASC"))], left.n - 1, FALSE)
OrderEnd == ph = "orders" /\ left.n = 0 /\ Go("limit", <<>>, st, 0, TRUE)
NoLimit == ph = "limit" /\ Go("end", <<>>, st, 0, TRUE)
LimitOnly == /\ ph = "limit"
             /\ \E u \in Draw(Uint(left.d)) : Go("end", <<"LIMIT", u>>, [st EXCEPT !.lim = u], 0, TRUE)
LimitOffset == /\ ph = "limit"
               /\ \E sp \in {"OFFSET", ","} : \E u \in Draw(Uint(left.d)) : \E v \in Draw(Uint(left.d)) :
                    Go("end", IF sp = "," THEN <<"LIMIT", v, ",", u>> ELSE <<"LIMIT", u, "OFFSET", v>>,
                       [st EXCEPT !.lim = u, !.off = v], 0, TRUE)

(***************************************************************************)
(* INSERT, UPDATE, DELETE, COPY                                            *)
(***************************************************************************)
InsertWords(d) == R({<<"INSERT", "INTO">>, <<"REPLACE", "INTO">>, <<"INSERT", "OR", "IGNORE", "INTO">>,
                     <<"INSERT", "OR", "REPLACE", "INTO">>, <<"INSERT", "INTO">>}, d)
InsertBegin(n, q) ==
  \E x \in Draw(GenTable(q, left.d)) : \E cs \in Draw(Ids(n, left.d)) : \E m \in Lens :
     GoCols("rows", InsertWords(left.d) \o x.t \o Par(cs) \o <<"VALUES">>, InsertSt(x.v, <<>>), m, TRUE, cs)
InsertRow ==
  /\ ph = "rows" /\ left.n > 0
  /\ \E vs \in Draw(Lits(Len(left.cols), left.d)) :
       GoCols("rows", Comma \o Par(vs),
          [st EXCEPT !.rows = Append(@, [m \in 1..Len(vs) |-> [c |-> left.cols[m], v |-> vs[m]]])],
          left.n - 1, FALSE, left.cols)
InsertEnd == ph = "rows" /\ left.n = 0 /\ Go("end", <<>>, st, 0, TRUE)
\* VALUES (a = 1, b = 2): each row names its own columns
InsertNamedBegin(q) ==
  \E x \in Draw(GenTable(q, left.d)) : \E m \in Lens :
     Go("nrows", InsertWords(left.d) \o x.t \o <<"VALUES">>, InsertSt(x.v, <<>>), m, TRUE)
RECURSIVE NamedToks(_, _)
NamedToks(cs, vs) == IF cs = <<>> THEN <<>>
                     ELSE <<Head(cs), "=", Head(vs)>> \o (IF Len(cs) > 1 THEN <<",">> ELSE <<>>)
                          \o NamedToks(Tail(cs), Tail(vs))
InsertNamedRow ==
  /\ ph = "nrows" /\ left.n > 0
  /\ \E n \in Lens : \E cs \in Draw(Ids(n, left.d)) : \E vs \in Draw(Lits(n, left.d)) :
       Go("nrows", Comma \o <<"(">> \o NamedToks(cs, vs) \o <<")">>,
          [st EXCEPT !.rows = Append(@, [m \in 1..n |-> [c |-> cs[m], v |-> vs[m]]])], left.n - 1, FALSE)
InsertNamedEnd == ph = "nrows" /\ left.n = 0 /\ Go("end", <<>>, st, 0, TRUE)

UpdateBegin(n, q) ==
  \E x \in Draw(GenTable(q, left.d)) : Go("set", <<"UPDATE">> \o x.t \o <<"SET">>, UpdateSt(x.v, <<>>, NoWhere), n, TRUE)
GenAssign(kd, d) ==
  LET a == Id(d)
  IN IF kd = "lit" THEN LET l == Lit(d) IN [t |-> <<a, "=", l>>, v |-> [c |-> a, e |-> <<l>>]]
     ELSE LET b == Id(d) o == R(ArithOps, d)
              r == IF kd = "arith" THEN N("n", LitMax, d)
                   ELSE IF R({1, 2, 3}, d) = 1 THEN N("s", LitMax, d) ELSE Id(d)
          IN [t |-> <<a, "=", b, o, r>>, v |-> [c |-> a, e |-> <<b, o, r>>]]
Assign == /\ ph = "set" /\ left.n > 0
          /\ \E kd \in {"lit", "arith", "arithx"} : \E x \in Draw(GenAssign(kd, left.d)) :
               Go("set", Comma \o x.t, [st EXCEPT !.set = Append(@, x.v)], left.n - 1, FALSE)
AssignEnd == ph = "set" /\ left.n = 0 /\ Go("where", <<>>, st, 0, TRUE)
DeleteBegin(q) ==
  \E x \in Draw(GenTable(q, left.d)) : Go("where", <<"DELETE", "FROM">> \o x.t, DeleteSt(x.v, NoWhere), 0, TRUE)
CopyBegin(n, c) ==
  \E a \in Draw(Id(left.d)) : \E cs \in Draw(Ids(IF c THEN n ELSE 0, left.d)) :
  \E src \in Draw(R({"STDIN", Str(left.d)}, left.d)) :
  \E f \in {"", "TEXT", "CSV", "BINARY"} :
     Go("end", <<"COPY", a>> \o (IF c THEN Par(cs) ELSE <<>>) \o <<"FROM", src>>
        \o (IF f = "" THEN <<>> ELSE R({<<>>, <<"WITH">>, <<"FORMAT">>, <<"WITH", "FORMAT">>}, left.d) \o <<f>>),
        CopySt(Tbl("", a), cs, src, IF f = "" THEN "TEXT" ELSE f), 0, TRUE)

(***************************************************************************)
(* DDL                                                                     *)
(***************************************************************************)
Ine(b) == IF b THEN <<"IF", "NOT", "EXISTS">> ELSE <<>>
Ie(b)  == IF b THEN <<"IF", "EXISTS">> ELSE <<>>
CreateTableBegin(n, b) ==
  \E a \in Draw(Id(left.d)) :
     Go("items", <<"CREATE", "TABLE">> \o Ine(b) \o <<a, "(">>, CreateTableSt(Tbl("", a), b, <<>>, <<>>), n, TRUE)
ColumnForms == {"plain", "size", "scale", "pk"}
GenCol(f, d) ==
  LET a == Id(d)
      ty == Type(d)
      z == Size(d)
  IN CASE f = "plain" -> [t |-> IF ty = "DOUBLE" THEN <<a, ty, "PRECISION">> ELSE <<a, ty>>, v |-> ColDef(a, ty, "")]
       [] f = "size"  -> [t |-> <<a, ty, "(", z, ")">>, v |-> ColDef(a, ty, z)]
       [] f = "scale" -> [t |-> <<a, "DECIMAL", "(", z, ",", Size(d), ")">>, v |-> ColDef(a, "DECIMAL", z)]
       [] f = "pk"    -> [t |-> <<a, ty, "PRIMARY", "KEY">>, v |-> ColDef(a, ty, "")]
ColItem ==
  /\ ph = "items" /\ left.n > 0
  /\ \E f \in ColumnForms : \E x \in Draw(GenCol(f, left.d)) :
       Go("items", Comma \o x.t,
          [st EXCEPT !.cols = Append(@, x.v),
                     !.idx = IF f = "pk" THEN Append(@, Idx("P", "", <<x.v.n>>)) ELSE @], left.n - 1, FALSE)
\* an index names a column defined before it
IndexItem ==
  /\ ph = "items" /\ left.n > 0 /\ st.cols # <<>>
  /\ \E w \in {"INDEX", "KEY"} : \E a \in Draw(Id(left.d)) : \E j \in Draw(R(1..Len(st.cols), left.d)) :
       Go("items", <<",", w, a, "(", st.cols[j].n, ")">>,
          [st EXCEPT !.idx = Append(@, Idx("S", a, <<st.cols[j].n>>))], left.n - 1, FALSE)
ItemsEnd == ph = "items" /\ left.n = 0 /\ Go("end", <<")">>, st, 0, TRUE)
ItemsEndPk ==
  /\ ph = "items" /\ left.n = 0
  /\ \E n \in Lens : \E cs \in Draw(Ids(n, left.d)) :
       Go("end", <<",", "PRIMARY", "KEY">> \o Par(cs) \o <<")">>,
          [st EXCEPT !.idx = Append(@, Idx("P", "", cs))], 0, TRUE)
RECURSIVE IdxToks(_, _)
IdxToks(cs, d) == IF cs = <<>> THEN <<>>
                  ELSE <<Head(cs)>> \o R({<<>>, <<>>, <<"ASC">>}, d)
                       \o (IF Len(cs) > 1 THEN <<",">> ELSE <<>>) \o IdxToks(Tail(cs), d)
CreateIndexBegin(n, b) ==
  \E a \in Draw(Id(left.d)) : \E t \in Draw(Id(left.d)) : \E cs \in Draw(Ids(n, left.d)) :
     Go("end", <<"CREATE", "INDEX">> \o Ine(b) \o <<a, "ON", t, "(">> \o IdxToks(cs, left.d) \o <<")">>,
        CreateIndexSt(Tbl("", t), b, Idx("S", a, cs)), 0, TRUE)
CreateDatabaseBegin(b) ==
  \E a \in Draw(Id(left.d)) : Go("end", <<"CREATE", "DATABASE">> \o Ine(b) \o <<a>>, CreateDatabaseSt(a, b), 0, TRUE)
DropDatabaseBegin(b) ==
  \E a \in Draw(Id(left.d)) : Go("end", <<"DROP", "DATABASE">> \o Ie(b) \o <<a>>, DropDatabaseSt(a, b), 0, TRUE)
DropTableBegin(n, q, b) ==
  \E x \in Draw(GenTable(q, left.d)) : \E cs \in Draw(Ids(n - 1, left.d)) :
     Go("end", <<"DROP", "TABLE">> \o Ie(b) \o x.t \o (IF n = 1 THEN <<>> ELSE <<",">> \o Sep(cs)),
        DropTableSt(<<x.v>> \o [m \in 1..Len(cs) |-> Tbl("", cs[m])], b), 0, TRUE)
DropIndexBegin(q, b) ==
  \E x \in Draw(GenTable(q, left.d)) :
     Go("end", <<"DROP", "INDEX">> \o Ie(b) \o x.t, DropIndexSt(x.v.s, x.v.t, b), 0, TRUE)
AlterDatabaseBegin ==
  \E a \in Draw(Id(left.d)) : \E b \in Draw(Id(left.d)) :
     Go("end", <<"ALTER", "DATABASE", a, "RENAME", "TO", b>>, AlterDatabaseSt(a, b), 0, TRUE)
AlterTableBegin(n, q) ==
  \E x \in Draw(GenTable(q, left.d)) : \E a \in Draw(Id(left.d)) : \E b \in Draw(Id(left.d)) :
  \E w \in Draw(R({<<>>, <<"COLUMN">>}, left.d)) : \E cs \in Draw(Ids(n, left.d)) :
  LET H == <<"ALTER", "TABLE">> \o x.t
  IN \/ Go("end", H \o <<"RENAME", "TO", a>>, AlterTableSt(x.v, "RENAME TO", <<a>>, <<>>, <<>>), 0, TRUE)
     \/ Go("end", H \o <<"RENAME">> \o w \o <<a, "TO", b>>, AlterTableSt(x.v, "RENAME", <<a, b>>, <<>>, <<>>), 0, TRUE)
     \/ Go("end", H \o <<"DROP">> \o w \o <<a>>, AlterTableSt(x.v, "DROP", <<a>>, <<>>, <<>>), 0, TRUE)
     \/ \E f \in {"plain", "size", "scale"} : \E c \in Draw(GenCol(f, left.d)) :
          Go("end", H \o <<"ADD">> \o w \o c.t, AlterTableSt(x.v, "ADD", <<>>, <<c.v>>, <<>>), 0, TRUE)
     \/ \E ct \in BOOLEAN :
          Go("end", H \o <<"ADD">> \o (IF ct THEN <<"CONSTRAINT", a>> ELSE <<>>) \o <<"PRIMARY", "KEY">> \o Par(cs),
             AlterTableSt(x.v, "ADD INDEX", <<>>, <<>>, <<Idx("P", "", cs)>>), 0, TRUE)
     \/ Go("end", H \o <<"ADD", "INDEX", a>> \o Par(cs),
           AlterTableSt(x.v, "ADD INDEX", <<>>, <<>>, <<Idx("S", a, cs)>>), 0, TRUE)
TruncateBegin(n) ==
  \E cs \in Draw(Ids(n, left.d)) :
     Go("end", R({<<"TRUNCATE">>, <<"TRUNCATE", "TABLE">>}, left.d) \o Sep(cs),
        TruncateSt([m \in 1..Len(cs) |-> Tbl("", cs[m])]), 0, TRUE)
VacuumBegin ==
  \/ Go("end", <<"VACUUM">>, VacuumSt(<<>>), 0, TRUE)
  \/ \E a \in Draw(Id(left.d)) : Go("end", <<"VACUUM", a>>, VacuumSt(<<Tbl("", a)>>), 0, TRUE)
UseBegin == \E a \in Draw(Id(left.d)) : Go("end", <<"USE", a>>, UseSt(a), 0, TRUE)
TransactionBegin(k) ==
  LET heads == CASE k = "BEGIN" -> {<<"BEGIN">>, <<"BEGIN", "DEFERRED">>, <<"BEGIN", "IMMEDIATE">>, <<"BEGIN", "EXCLUSIVE">>}
                 [] k = "COMMIT" -> {<<"COMMIT">>, <<"END">>}
                 [] k = "ROLLBACK" -> {<<"ROLLBACK">>}
  IN \E h \in heads, t \in BOOLEAN : Go("end", h \o (IF t THEN <<"TRANSACTION">> ELSE <<>>), SimpleSt(k), 0, TRUE)

Begin(k) ==
  CASE k = "SELECT" -> \E n \in Lens : \E all \in Draw(R({FALSE, FALSE, TRUE}, left.d)) : SelectBegin(n, all)
    [] k = "INSERT" -> \E n \in Lens, q \in BOOLEAN : InsertBegin(n, q)
    [] k = "INSERT NAMED" -> \E q \in BOOLEAN : InsertNamedBegin(q)
    [] k = "UPDATE" -> \E n \in Lens, q \in BOOLEAN : UpdateBegin(n, q)
    [] k = "DELETE" -> \E q \in BOOLEAN : DeleteBegin(q)
    [] k = "COPY" -> \E n \in Lens, c \in BOOLEAN : CopyBegin(n, c)
    [] k = "CREATE TABLE" -> \E n \in Lens, b \in BOOLEAN : CreateTableBegin(n, b)
    [] k = "CREATE INDEX" -> \E n \in Lens, b \in BOOLEAN : CreateIndexBegin(n, b)
    [] k = "CREATE DATABASE" -> \E b \in BOOLEAN : CreateDatabaseBegin(b)
    [] k = "DROP DATABASE" -> \E b \in BOOLEAN : DropDatabaseBegin(b)
    [] k = "DROP TABLE" -> \E n \in Lens, q \in BOOLEAN, b \in BOOLEAN : DropTableBegin(n, q, b)
    [] k = "DROP INDEX" -> \E q \in BOOLEAN, b \in BOOLEAN : DropIndexBegin(q, b)
    [] k = "ALTER DATABASE" -> AlterDatabaseBegin
    [] k = "ALTER TABLE" -> \E n \in Lens, q \in BOOLEAN : AlterTableBegin(n, q)
    [] k = "TRUNCATE" -> \E n \in Lens : TruncateBegin(n)
    [] k = "VACUUM" -> VacuumBegin
    [] k = "USE" -> UseBegin
    [] k \in {"BEGIN", "COMMIT", "ROLLBACK"} -> TransactionBegin(k)

Start == ph = "start" /\ \E k \in Kinds : Begin(k)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
\* a finished statement: go on with the next one, or finish the script
NextStmt ==
  /\ ph = "end" /\ todo > 1
  /\ \E n \in Semis \ {0} :
       /\ tk' = tk \o Rep(";", n) /\ out' = Append(out, st) /\ st' = [k |-> ""]
       /\ ph' = "start" /\ todo' = todo - 1 /\ left' = [left EXCEPT !.n = 0, !.fst = TRUE, !.d = @ + 1]
Finish ==
  /\ ph = "end" /\ todo = 1
  /\ \E n \in Draw(R({0, 0, 1, 2}, left.d)) :
       /\ tk' = tk \o Rep(";", n)
       /\ out' = Append(out, st) /\ st' = [k |-> ""] /\ ph' = "done" /\ todo' = 0
       /\ UNCHANGED left
       /\ IF Emit THEN PrintT("VEC " \o ToJson([toks |-> tk'])) ELSE TRUE

Next ==
  \/ Start \/ SelectItem \/ SelectFrom \/ FromItem \/ FromEnd
  \/ NoWhereClause \/ WhereCmp \/ WhereTwo \/ NoGroup \/ GroupBy
  \/ NoOrder \/ OrderBegin \/ OrderItem \/ OrderEnd \/ NoLimit \/ LimitOnly \/ LimitOffset
  \/ InsertRow \/ InsertEnd \/ InsertNamedRow \/ InsertNamedEnd
  \/ Assign \/ AssignEnd \/ ColItem \/ IndexItem \/ ItemsEnd \/ ItemsEndPk
  \/ NextStmt \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the specification itself must satisfy.                             *)
(***************************************************************************)
\* The text means exactly the statements that were derived, in order.
ParseMeansDerivation == ph = "done" => LET r == Parse(tk) IN r.ok /\ r.v = out
\* Joined names print as one token, so re-read them as such: statements with
\* dotted or computed names are excluded here and covered by the replay.
PlainName(n) == IsId(n) \/ IsLit(n) \/ n = "*"
Plain(s) == s.k = "SELECT" => /\ \A j \in 1..Len(s.sel) : s.sel[j].f = "F" \/ PlainName(s.sel[j].n)
                              /\ \A j \in 1..Len(s.sel) : \A m \in 1..Len(s.sel[j].a) : PlainName(s.sel[j].a[m])
\* The canonical text of a statement means that statement.
PrintParses == ph = "done" => \A j \in 1..Len(out) :
                 Plain(out[j]) => LET r == Parse(Text(out[j])) IN r.ok /\ r.v = <<out[j]>>
\* While a statement is unfinished its text is a proper prefix of a script
\* (never itself another script with more statements than finished ones).
NoEarlyStatement == (ph \notin {"done", "end", "start"} /\ Parse(tk).ok) => Len(Parse(tk).v) = Len(out) + 1
=============================================================================
