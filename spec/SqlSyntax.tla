------------------------------ MODULE SqlSyntax ------------------------------
(***************************************************************************)
(* The SQL dialect of go-sqlparser over an abstract token alphabet: what a *)
(* sequence of tokens means (Parse) and how a statement is written (Print).*)
(*                                                                         *)
(* A token is a string.  Keywords and punctuation stand for themselves     *)
(* (upper case); symbols stand for the open classes of the lexer:          *)
(*   i<k> identifier        f<k> scalar function   g<k> aggregate function *)
(*   s<k> string literal    n<k> signed number     x<k> blob literal       *)
(*   u<k> positive integer (LIMIT/OFFSET)          z<k> type size          *)
(*   d<k> bind parameter $k c<k> bind parameter :name   "?" bind parameter *)
(* The driver replaces symbols by concrete text injectively, so a symbol   *)
(* in a result tells exactly which piece of the text it came from.         *)
(*                                                                         *)
(* Statement records (field names have one type throughout the module, so  *)
(* any two statements can be compared):                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Ch(t) == IF Len(t) = 0 THEN "" ELSE SubSeq(t, 1, 1)
Symbol(t, c) == Len(t) > 1 /\ Ch(t) = c
IsId(t)   == Symbol(t, "i")
IsFn(t)   == Symbol(t, "f") \/ Symbol(t, "g")
IsAggr(t) == Symbol(t, "g")
IsUint(t) == Symbol(t, "u")
IsSize(t) == Symbol(t, "z")
LitKeywords == {"NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE",
                "CURRENT_TIMESTAMP"}
IsBind(t) == t = "?" \/ Symbol(t, "d") \/ Symbol(t, "c")
IsLit(t)  == Symbol(t, "n") \/ Symbol(t, "s") \/ Symbol(t, "x")
             \/ IsBind(t) \/ t \in LitKeywords

CmpOps   == {"=", "!=", "<>", "<", ">", "<=", ">="}
NormOp(o) == IF o = "<>" THEN "!=" ELSE o
ArithOps == {"+", "-", "*", "/", "%"}

TypeNames == {"BIGINT", "BINARY", "BIT", "BLOB", "BOOLEAN", "CHAR", "CHARACTER",
  "CLOB", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "FLOAT", "INT", "INTEGER",
  "LONGBLOB", "LONGTEXT", "MEDIUMBLOB", "MEDIUMINT", "MEDIUMTEXT", "NUMERIC",
  "REAL", "SET", "SMALLINT", "TEXT", "TIME", "TIMESTAMP", "TINYBLOB", "TINYINT",
  "TINYTEXT", "VARBINARY", "VARCHAR", "VARCHARACTER", "YEAR", "SERIAL",
  "BIGSERIAL", "SMALLSERIAL", "NAME"}

(***************************************************************************)
(* Statement constructors.                                                 *)
(***************************************************************************)
Sel(f, n, a)     == [f |-> f, n |-> n, a |-> a]      \* f: "C" column, "F" function
Tbl(s, t)        == [s |-> s, t |-> t]               \* s = "" : no schema
Cmp(l, op, r)    == [l |-> l, op |-> op, r |-> r]
NoWhere          == [c |-> "none", p |-> <<>>]
Where(c, p)      == [c |-> c, p |-> p]               \* c: none, cmp, and, or
Ord(c, d)        == [oc |-> c, d |-> d]
ColDef(n, ty, z) == [n |-> n, ty |-> ty, sz |-> z]   \* sz = "" : no size
Idx(ty, n, cols) == [ity |-> ty, n |-> n, ic |-> cols] \* ity: "P", "S"

SelectSt(sel, from, w, g, o, lim, off) ==
  [k |-> "SELECT", sel |-> sel, from |-> from, w |-> w, g |-> g, o |-> o,
   lim |-> lim, off |-> off]
InsertSt(t, rows) == [k |-> "INSERT", tb |-> t, rows |-> rows]
UpdateSt(t, set, w) == [k |-> "UPDATE", tb |-> t, set |-> set, w |-> w]
DeleteSt(t, w)    == [k |-> "DELETE", tb |-> t, w |-> w]
CopySt(t, cols, src, fmt) ==
  [k |-> "COPY", tb |-> t, ic |-> cols, src |-> src, fmt |-> fmt]
CreateTableSt(t, ine, cols, idx) ==
  [k |-> "CREATE TABLE", tb |-> t, opt |-> ine, cols |-> cols, idx |-> idx]
CreateIndexSt(t, ine, ix) ==
  [k |-> "CREATE INDEX", tb |-> t, opt |-> ine, idx |-> <<ix>>]
CreateDatabaseSt(d, ine) == [k |-> "CREATE DATABASE", db |-> d, opt |-> ine]
DropDatabaseSt(d, ie)    == [k |-> "DROP DATABASE", db |-> d, opt |-> ie]
DropTableSt(ts, ie)      == [k |-> "DROP TABLE", from |-> ts, opt |-> ie]
DropIndexSt(s, n, ie)    == [k |-> "DROP INDEX", tb |-> Tbl("", s), n |-> n, opt |-> ie]
AlterDatabaseSt(d, to)   == [k |-> "ALTER DATABASE", db |-> d, to |-> to]
AlterTableSt(t, act, names, cols, idx) ==      \* act: RENAME TO, RENAME, ADD, ADD INDEX, DROP
  [k |-> "ALTER TABLE", tb |-> t, act |-> act, ic |-> names, cols |-> cols, idx |-> idx]
TruncateSt(ts)    == [k |-> "TRUNCATE", from |-> ts]
VacuumSt(ts)      == [k |-> "VACUUM", from |-> ts]
UseSt(d)          == [k |-> "USE", db |-> d]
SimpleSt(k)       == [k |-> k]                 \* BEGIN, COMMIT, ROLLBACK

(***************************************************************************)
(* Recursive-descent parser.  Every P-operator maps a token sequence and a *)
(* position to [ok, v, p]: success, value and the position after it.       *)
(***************************************************************************)
EOF == "EOF"
Tok(T, p) == IF p <= Len(T) THEN T[p] ELSE EOF
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
No(p)    == [ok |-> FALSE, v |-> <<>>, p |-> p]

PKw(T, p, k) == IF Tok(T, p) = k THEN Ok(k, p + 1) ELSE No(p)
\* a fixed sequence of tokens
RECURSIVE PSeq(_, _, _)
PSeq(T, p, ks) == IF ks = <<>> THEN Ok(<<>>, p)
                  ELSE IF Tok(T, p) = Head(ks) THEN PSeq(T, p + 1, Tail(ks)) ELSE No(p)
PClass(T, p, C(_)) == IF C(Tok(T, p)) THEN Ok(Tok(T, p), p + 1) ELSE No(p)
\* optional fixed sequence: v tells whether it was there
POpt(T, p, ks) == LET r == PSeq(T, p, ks) IN IF r.ok THEN Ok(TRUE, r.p) ELSE Ok(FALSE, p)
\* Item ("," Item)*
PList(T, p, Item(_, _)) ==
  LET RECURSIVE L(_, _)
      L(q, acc) == LET r == Item(T, q)
                   IN IF ~r.ok THEN No(q)
                      ELSE IF Tok(T, r.p) = "," THEN L(r.p + 1, Append(acc, r.v))
                      ELSE Ok(Append(acc, r.v), r.p)
  IN L(p, <<>>)
PParen(T, p, Item(_, _)) ==
  IF Tok(T, p) # "(" THEN No(p)
  ELSE LET r == PList(T, p + 1, Item)
       IN IF r.ok /\ Tok(T, r.p) = ")" THEN Ok(r.v, r.p + 1) ELSE No(p)

PId(T, p)  == PClass(T, p, IsId)
PLit(T, p) == PClass(T, p, IsLit)
PTable(T, p) ==
  IF ~IsId(Tok(T, p)) THEN No(p)
  ELSE IF Tok(T, p + 1) = "." THEN IF IsId(Tok(T, p + 2)) THEN Ok(Tbl(T[p], T[p + 2]), p + 3) ELSE No(p)
  ELSE Ok(Tbl("", T[p]), p + 1)
PPlainTable(T, p) == IF IsId(Tok(T, p)) THEN Ok(Tbl("", T[p]), p + 1) ELSE No(p)
\* table [AS alias]: the alias does not belong to the table name
PAlias(T, p) == IF Tok(T, p) = "AS" /\ IsId(Tok(T, p + 1)) THEN p + 2 ELSE p
PFromTable(T, p) == LET r == PTable(T, p) IN IF r.ok THEN Ok(r.v, PAlias(T, r.p)) ELSE r
\* a, t.a, s.t.a, t.*  as one name
RECURSIVE PDotted(_, _, _)
PDotted(T, p, acc) ==
  IF Tok(T, p) # "." THEN Ok(acc, p)
  ELSE IF IsId(Tok(T, p + 1)) THEN PDotted(T, p + 2, acc \o "." \o T[p + 1])
  ELSE IF Tok(T, p + 1) = "*" THEN Ok(acc \o ".*", p + 2)
  ELSE No(p)
PColName(T, p) == IF IsId(Tok(T, p)) THEN PDotted(T, p + 1, T[p]) ELSE No(p)

PArg(T, p) == IF IsId(Tok(T, p)) THEN PColName(T, p) ELSE PLit(T, p)
PSelector(T, p) ==
  LET t == Tok(T, p)
      body ==
        IF t = "*" THEN Ok(Sel("C", "*", <<>>), p + 1)
        ELSE IF IsFn(t) THEN
          IF Tok(T, p + 1) # "(" THEN No(p)
          ELSE IF Tok(T, p + 2) = ")" THEN Ok(Sel("F", t, <<>>), p + 3)
          ELSE IF Tok(T, p + 2) = "*" THEN
            IF Tok(T, p + 3) = ")" THEN Ok(Sel("F", t, <<"*">>), p + 4) ELSE No(p)
          ELSE LET r == PParen(T, p + 1, PArg) IN IF r.ok THEN Ok(Sel("F", t, r.v), r.p) ELSE No(p)
        ELSE IF IsId(t) THEN
          LET r == PColName(T, p)
          IN IF ~r.ok THEN No(p)
             ELSE IF Tok(T, r.p) \in ArithOps
               THEN LET q == IF IsUint(Tok(T, r.p + 1)) THEN Ok(T[r.p + 1], r.p + 2) ELSE PArg(T, r.p + 1)
                    IN IF q.ok THEN Ok(Sel("C", r.v \o T[r.p] \o q.v, <<>>), q.p) ELSE No(p)
             ELSE Ok(Sel("C", r.v, <<>>), r.p)
        ELSE IF IsLit(t) THEN Ok(Sel("C", t, <<>>), p + 1)
        ELSE No(p)
  IN IF body.ok THEN Ok(body.v, PAlias(T, body.p)) ELSE body

PCmp(T, p) ==
  IF IsId(Tok(T, p)) /\ Tok(T, p + 1) \in CmpOps /\ IsLit(Tok(T, p + 2))
  THEN Ok(Cmp(T[p], NormOp(T[p + 1]), T[p + 2]), p + 3) ELSE No(p)
PWhere(T, p) ==
  IF Tok(T, p) # "WHERE" THEN Ok(NoWhere, p)
  ELSE LET a == PCmp(T, p + 1)
       IN IF ~a.ok THEN No(p)
          ELSE IF Tok(T, a.p) \in {"AND", "OR"}
            THEN LET b == PCmp(T, a.p + 1)
                 IN IF b.ok THEN Ok(Where(IF T[a.p] = "AND" THEN "and" ELSE "or", <<a.v, b.v>>), b.p)
                    ELSE No(p)
          ELSE Ok(Where("cmp", <<a.v>>), a.p)
POrder(T, p) ==
  LET r == PColName(T, p)
  IN IF ~r.ok THEN No(p)
     ELSE IF Tok(T, r.p) = "DESC" THEN Ok(Ord(r.v, "DESC"), r.p + 1)
     ELSE IF Tok(T, r.p) = "ASC" THEN Ok(Ord(r.v, "ASC"), r.p + 1)
     ELSE Ok(Ord(r.v, "ASC"), r.p)
PGroupBy(T, p) ==
  LET k == POpt(T, p, <<"GROUP", "BY">>) IN IF ~k.v THEN Ok("", p) ELSE PColName(T, k.p)
POrderBy(T, p) ==
  LET k == POpt(T, p, <<"ORDER", "BY">>) IN IF ~k.v THEN Ok(<<>>, p) ELSE PList(T, k.p, POrder)
PLimit(T, p) ==
  IF Tok(T, p) # "LIMIT" THEN Ok(<<"", "">>, p)
  ELSE IF ~IsUint(Tok(T, p + 1)) THEN No(p)
  ELSE IF Tok(T, p + 2) = "OFFSET"
       THEN IF IsUint(Tok(T, p + 3)) THEN Ok(<<T[p + 1], T[p + 3]>>, p + 4) ELSE No(p)
  ELSE IF Tok(T, p + 2) = ","
       THEN IF IsUint(Tok(T, p + 3)) THEN Ok(<<T[p + 3], T[p + 1]>>, p + 4) ELSE No(p)
  ELSE Ok(<<T[p + 1], "">>, p + 2)

PSelect(T, p) ==
  LET q0 == IF Tok(T, p + 1) = "ALL" THEN p + 2 ELSE p + 1
      sel == PList(T, q0, PSelector)
  IN IF ~sel.ok \/ Tok(T, sel.p) # "FROM" THEN No(p)
     ELSE LET from == PList(T, sel.p + 1, PFromTable)
          IN IF ~from.ok THEN No(p)
             ELSE LET w == PWhere(T, from.p)
                  IN IF ~w.ok THEN No(p)
                     ELSE LET g == PGroupBy(T, w.p)
                          IN IF ~g.ok THEN No(p)
                             ELSE LET o == POrderBy(T, g.p)
                                  IN IF ~o.ok THEN No(p)
                                     ELSE LET l == PLimit(T, o.p)
                                          IN IF ~l.ok THEN No(p)
                                             ELSE Ok(SelectSt(sel.v, from.v, w.v, g.v, o.v, l.v[1], l.v[2]), l.p)

\* INSERT: every row pairs the column list with its own values.
PNamedVal(T, p) ==
  IF IsId(Tok(T, p)) /\ Tok(T, p + 1) = "=" /\ IsLit(Tok(T, p + 2))
  THEN Ok([c |-> T[p], v |-> T[p + 2]], p + 3) ELSE No(p)
PRow(T, p)      == PParen(T, p, PLit)
PNamedRow(T, p) == PParen(T, p, PNamedVal)
PInsert(T, p) ==
  LET h == IF Tok(T, p) = "REPLACE" THEN PSeq(T, p, <<"REPLACE", "INTO">>)
           ELSE IF Tok(T, p + 1) = "OR"
             THEN IF Tok(T, p + 2) \in {"REPLACE", "IGNORE", "ABORT", "FAIL", "ROLLBACK"}
                  THEN PKw(T, p + 3, "INTO") ELSE No(p)
           ELSE PSeq(T, p, <<"INSERT", "INTO">>)
  IN IF ~h.ok THEN No(p)
     ELSE LET t == PTable(T, h.p)
          IN IF ~t.ok THEN No(p)
             ELSE IF Tok(T, t.p) = "VALUES"
               THEN LET rows == PList(T, t.p + 1, PNamedRow)
                    IN IF rows.ok THEN Ok(InsertSt(t.v, rows.v), rows.p) ELSE No(p)
             ELSE LET cols == PParen(T, t.p, PId)
                  IN IF ~cols.ok \/ Tok(T, cols.p) # "VALUES" THEN No(p)
                     ELSE LET rows == PList(T, cols.p + 1, PRow)
                          IN IF rows.ok /\ \A j \in 1..Len(rows.v) : Len(rows.v[j]) = Len(cols.v)
                             THEN Ok(InsertSt(t.v, [j \in 1..Len(rows.v) |->
                                     [m \in 1..Len(cols.v) |-> [c |-> cols.v[m], v |-> rows.v[j][m]]]]), rows.p)
                             ELSE No(p)

PAssign(T, p) ==
  IF ~(IsId(Tok(T, p)) /\ Tok(T, p + 1) = "=") THEN No(p)
  ELSE IF IsLit(Tok(T, p + 2)) THEN Ok([c |-> T[p], e |-> <<T[p + 2]>>], p + 3)
  ELSE IF IsId(Tok(T, p + 2)) /\ Tok(T, p + 3) \in ArithOps
       THEN LET r == PArg(T, p + 4)
            IN IF r.ok THEN Ok([c |-> T[p], e |-> <<T[p + 2], T[p + 3], r.v>>], r.p) ELSE No(p)
  ELSE No(p)
PUpdate(T, p) ==
  LET t == PTable(T, p + 1)
  IN IF ~t.ok \/ Tok(T, t.p) # "SET" THEN No(p)
     ELSE LET set == PList(T, t.p + 1, PAssign)
          IN IF ~set.ok THEN No(p)
             ELSE LET w == PWhere(T, set.p)
                  IN IF w.ok THEN Ok(UpdateSt(t.v, set.v, w.v), w.p) ELSE No(p)
PDelete(T, p) ==
  IF Tok(T, p + 1) # "FROM" THEN No(p)
  ELSE LET t == PTable(T, p + 2)
       IN IF ~t.ok THEN No(p)
          ELSE LET w == PWhere(T, t.p)
               IN IF w.ok THEN Ok(DeleteSt(t.v, w.v), w.p) ELSE No(p)

CopyFormats == {"TEXT", "CSV", "BINARY"}
PCopyFormat(T, p) ==
  LET q1 == IF Tok(T, p) = "WITH" THEN p + 1 ELSE p
      q2 == IF Tok(T, q1) = "FORMAT" THEN q1 + 1 ELSE q1
  IN IF Tok(T, q2) \in CopyFormats THEN Ok(T[q2], q2 + 1)
     ELSE IF q2 = p THEN Ok("TEXT", p) ELSE No(p)
PCopy(T, p) ==
  IF ~IsId(Tok(T, p + 1)) THEN No(p)
  ELSE LET cols == IF Tok(T, p + 2) = "(" THEN PParen(T, p + 2, PId) ELSE Ok(<<>>, p + 2)
       IN IF ~cols.ok \/ Tok(T, cols.p) # "FROM" THEN No(p)
          ELSE LET src == Tok(T, cols.p + 1)
               IN IF ~(src = "STDIN" \/ Symbol(src, "s")) THEN No(p)
                  ELSE LET f == PCopyFormat(T, cols.p + 2)
                       IN IF f.ok THEN Ok(CopySt(Tbl("", T[p + 1]), cols.v, src, f.v), f.p) ELSE No(p)

\* Column definition: name type [(size[, scale])] [PRIMARY KEY]
PType(T, p) ==
  LET t == Tok(T, p)
      q == IF t = "DOUBLE" /\ Tok(T, p + 1) = "PRECISION" THEN p + 2 ELSE p + 1
  IN IF t \notin TypeNames THEN No(p)
     ELSE IF Tok(T, q) # "(" THEN Ok(<<t, "">>, q)
     ELSE IF IsSize(Tok(T, q + 1)) /\ Tok(T, q + 2) = ")" THEN Ok(<<t, T[q + 1]>>, q + 3)
     ELSE IF IsSize(Tok(T, q + 1)) /\ Tok(T, q + 2) = "," /\ IsSize(Tok(T, q + 3)) /\ Tok(T, q + 4) = ")"
          THEN Ok(<<t, T[q + 1]>>, q + 5)
     ELSE No(p)
PColDef(T, p) ==
  IF ~IsId(Tok(T, p)) THEN No(p)
  ELSE LET ty == PType(T, p + 1)
       IN IF ty.ok THEN Ok(ColDef(T[p], ty.v[1], ty.v[2]), ty.p) ELSE No(p)
\* A table item contributes columns and indexes.
PItem(T, p) ==
  LET t == Tok(T, p)
  IN IF t = "PRIMARY" THEN
       IF Tok(T, p + 1) # "KEY" THEN No(p)
       ELSE LET r == PParen(T, p + 2, PId)
            IN IF r.ok THEN Ok([cols |-> <<>>, idx |-> <<Idx("P", "", r.v)>>], r.p) ELSE No(p)
     ELSE IF t \in {"INDEX", "KEY"} THEN
       IF ~IsId(Tok(T, p + 1)) THEN No(p)
       ELSE LET r == PParen(T, p + 2, PId)
            IN IF r.ok THEN Ok([cols |-> <<>>, idx |-> <<Idx("S", T[p + 1], r.v)>>], r.p) ELSE No(p)
     ELSE LET c == PColDef(T, p)
          IN IF ~c.ok THEN No(p)
             ELSE LET k == POpt(T, c.p, <<"PRIMARY", "KEY">>)
                  IN Ok([cols |-> <<c.v>>, idx |-> IF k.v THEN <<Idx("P", "", <<c.v.n>>)>> ELSE <<>>], k.p)
RECURSIVE CatCols(_), CatIdx(_)
CatCols(is) == IF is = <<>> THEN <<>> ELSE Head(is).cols \o CatCols(Tail(is))
CatIdx(is)  == IF is = <<>> THEN <<>> ELSE Head(is).idx \o CatIdx(Tail(is))
PCreateTable(T, p) ==
  LET ine == POpt(T, p + 2, <<"IF", "NOT", "EXISTS">>)
      t == PPlainTable(T, ine.p)
  IN IF ~t.ok THEN No(p)
     ELSE LET items == PParen(T, t.p, PItem)
          IN IF items.ok THEN Ok(CreateTableSt(t.v, ine.v, CatCols(items.v), CatIdx(items.v)), items.p)
             ELSE No(p)
PIndexed(T, p) ==
  IF ~IsId(Tok(T, p)) THEN No(p)
  ELSE Ok(T[p], IF Tok(T, p + 1) \in {"ASC", "DESC"} THEN p + 2 ELSE p + 1)
PCreateIndex(T, p) ==
  LET ine == POpt(T, p + 2, <<"IF", "NOT", "EXISTS">>)
  IN IF ~(IsId(Tok(T, ine.p)) /\ Tok(T, ine.p + 1) = "ON" /\ IsId(Tok(T, ine.p + 2))) THEN No(p)
     ELSE LET r == PParen(T, ine.p + 3, PIndexed)
          IN IF r.ok THEN Ok(CreateIndexSt(Tbl("", T[ine.p + 2]), ine.v, Idx("S", T[ine.p], r.v)), r.p)
             ELSE No(p)
PCreateDatabase(T, p) ==
  LET ine == POpt(T, p + 2, <<"IF", "NOT", "EXISTS">>)
  IN IF IsId(Tok(T, ine.p)) THEN Ok(CreateDatabaseSt(T[ine.p], ine.v), ine.p + 1) ELSE No(p)
PDropDatabase(T, p) ==
  LET ie == POpt(T, p + 2, <<"IF", "EXISTS">>)
  IN IF IsId(Tok(T, ie.p)) THEN Ok(DropDatabaseSt(T[ie.p], ie.v), ie.p + 1) ELSE No(p)
\* only the first dropped table may be qualified
PDropTable(T, p) ==
  LET ie == POpt(T, p + 2, <<"IF", "EXISTS">>)
      t == PTable(T, ie.p)
  IN IF ~t.ok THEN No(p)
     ELSE IF Tok(T, t.p) # "," THEN Ok(DropTableSt(<<t.v>>, ie.v), t.p)
     ELSE LET r == PList(T, t.p + 1, PPlainTable)
          IN IF r.ok THEN Ok(DropTableSt(<<t.v>> \o r.v, ie.v), r.p) ELSE No(p)
PDropIndex(T, p) ==
  LET ie == POpt(T, p + 2, <<"IF", "EXISTS">>)
      t == PTable(T, ie.p)
  IN IF t.ok THEN Ok(DropIndexSt(t.v.s, t.v.t, ie.v), t.p) ELSE No(p)
PAlterDatabase(T, p) ==
  IF IsId(Tok(T, p + 2)) /\ Tok(T, p + 3) = "RENAME" /\ Tok(T, p + 4) = "TO" /\ IsId(Tok(T, p + 5))
  THEN Ok(AlterDatabaseSt(T[p + 2], T[p + 5]), p + 6) ELSE No(p)
PAlterAction(T, p, t) ==
  LET a == Tok(T, p)
      q == IF Tok(T, p + 1) = "COLUMN" THEN p + 2 ELSE p + 1
      qc == IF Tok(T, p + 1) = "CONSTRAINT" /\ IsId(Tok(T, p + 2)) THEN p + 3 ELSE p + 1
  IN CASE a = "RENAME" ->
            IF Tok(T, p + 1) = "TO" THEN
              IF IsId(Tok(T, p + 2)) THEN Ok(AlterTableSt(t, "RENAME TO", <<T[p + 2]>>, <<>>, <<>>), p + 3) ELSE No(p)
            ELSE IF IsId(Tok(T, q)) /\ Tok(T, q + 1) = "TO" /\ IsId(Tok(T, q + 2))
              THEN Ok(AlterTableSt(t, "RENAME", <<T[q], T[q + 2]>>, <<>>, <<>>), q + 3) ELSE No(p)
       [] a = "DROP" ->
            IF IsId(Tok(T, q)) THEN Ok(AlterTableSt(t, "DROP", <<T[q]>>, <<>>, <<>>), q + 1) ELSE No(p)
       [] a = "ADD" ->
            IF Tok(T, qc) = "PRIMARY" \/ Tok(T, qc) = "INDEX"
            THEN LET i == PItem(T, qc)
                 IN IF i.ok THEN Ok(AlterTableSt(t, "ADD INDEX", <<>>, <<>>, i.v.idx), i.p) ELSE No(p)
            ELSE LET c == PColDef(T, q)
                 IN IF c.ok THEN Ok(AlterTableSt(t, "ADD", <<>>, <<c.v>>, <<>>), c.p) ELSE No(p)
       [] OTHER -> No(p)
PAlterTable(T, p) ==
  LET t == PTable(T, p + 2) IN IF t.ok THEN PAlterAction(T, t.p, t.v) ELSE No(p)
PTruncate(T, p) ==
  LET q == IF Tok(T, p + 1) = "TABLE" THEN p + 2 ELSE p + 1
      r == PList(T, q, PPlainTable)
  IN IF r.ok THEN Ok(TruncateSt(r.v), r.p) ELSE No(p)
PVacuum(T, p) ==
  IF IsId(Tok(T, p + 1)) THEN Ok(VacuumSt(<<Tbl("", T[p + 1])>>), p + 2) ELSE Ok(VacuumSt(<<>>), p + 1)
POptKw(T, p, k) == IF Tok(T, p) = k THEN p + 1 ELSE p

PStmt(T, p) ==
  LET a == Tok(T, p)
      b == Tok(T, p + 1)
  IN CASE a = "SELECT" -> PSelect(T, p)
       [] a \in {"INSERT", "REPLACE"} -> PInsert(T, p)
       [] a = "UPDATE" -> PUpdate(T, p)
       [] a = "DELETE" -> PDelete(T, p)
       [] a = "COPY" -> PCopy(T, p)
       [] a = "CREATE" -> CASE b = "TABLE" -> PCreateTable(T, p)
                            [] b = "INDEX" -> PCreateIndex(T, p)
                            [] b = "DATABASE" -> PCreateDatabase(T, p)
                            [] OTHER -> No(p)
       [] a = "DROP" -> CASE b = "TABLE" -> PDropTable(T, p)
                          [] b = "INDEX" -> PDropIndex(T, p)
                          [] b = "DATABASE" -> PDropDatabase(T, p)
                          [] OTHER -> No(p)
       [] a = "ALTER" -> CASE b = "TABLE" -> PAlterTable(T, p)
                           [] b = "DATABASE" -> PAlterDatabase(T, p)
                           [] OTHER -> No(p)
       [] a = "TRUNCATE" -> PTruncate(T, p)
       [] a = "VACUUM" -> PVacuum(T, p)
       [] a = "USE" -> IF IsId(b) THEN Ok(UseSt(b), p + 2) ELSE No(p)
       [] a = "BEGIN" -> LET q == IF b \in {"DEFERRED", "IMMEDIATE", "EXCLUSIVE"} THEN p + 2 ELSE p + 1
                         IN Ok(SimpleSt("BEGIN"), POptKw(T, q, "TRANSACTION"))
       [] a \in {"COMMIT", "END"} -> Ok(SimpleSt("COMMIT"), POptKw(T, p + 1, "TRANSACTION"))
       [] a = "ROLLBACK" -> Ok(SimpleSt("ROLLBACK"), POptKw(T, p + 1, "TRANSACTION"))
       [] OTHER -> No(p)

\* A script: statements separated by one or more semicolons; leading and
\* trailing semicolons are allowed around at least one statement.
RECURSIVE SkipSemi(_, _)
SkipSemi(T, p) == IF Tok(T, p) = ";" THEN SkipSemi(T, p + 1) ELSE p
RECURSIVE PScript(_, _, _)
PScript(T, p, acc) ==
  LET r == PStmt(T, p)
  IN IF ~r.ok THEN No(p)
     ELSE IF Tok(T, r.p) = EOF THEN Ok(Append(acc, r.v), r.p)
     ELSE IF Tok(T, r.p) # ";" THEN No(r.p)
     ELSE LET q == SkipSemi(T, r.p)
          IN IF Tok(T, q) = EOF THEN Ok(Append(acc, r.v), q) ELSE PScript(T, q, Append(acc, r.v))
\* The meaning of a text: [ok, v], v the sequence of its statements.
Parse(T) == PScript(T, SkipSemi(T, 1), <<>>)

(***************************************************************************)
(* Canonical text of a statement.                                          *)
(***************************************************************************)
RECURSIVE Commas(_)
Commas(parts) == IF parts = <<>> THEN <<>>
                 ELSE IF Len(parts) = 1 THEN parts[1]
                 ELSE parts[1] \o <<",">> \o Commas(Tail(parts))
Each(F(_), seq) == [j \in 1..Len(seq) |-> F(seq[j])]
One(x) == <<x>>
Paren(parts) == <<"(">> \o Commas(parts) \o <<")">>
PrTable(t) == IF t.s = "" THEN <<t.t>> ELSE <<t.s, ".", t.t>>
\* Names that were joined from several tokens are printed as one token: the
\* canonical text is only used for statements whose names are single tokens.
PrSel(s) == IF s.f = "F" THEN <<s.n>> \o Paren(Each(One, s.a)) ELSE <<s.n>>
PrCmp(c) == <<c.l, c.op, c.r>>
PrWhere(w) == CASE w.c = "none" -> <<>>
                [] w.c = "cmp" -> <<"WHERE">> \o PrCmp(w.p[1])
                [] w.c = "and" -> <<"WHERE">> \o PrCmp(w.p[1]) \o <<"AND">> \o PrCmp(w.p[2])
                [] w.c = "or"  -> <<"WHERE">> \o PrCmp(w.p[1]) \o <<"OR">> \o PrCmp(w.p[2])
PrOrd(o) == <<o.oc, o.d>>
PrCol(c) == <<c.n, c.ty>> \o (IF c.sz = "" THEN <<>> ELSE <<"(", c.sz, ")">>)
PrIdx(i) == (IF i.ity = "P" THEN <<"PRIMARY", "KEY">> ELSE <<"INDEX", i.n>>) \o Paren(Each(One, i.ic))
PrVal(x) == <<x.v>>
PrRow(r) == Paren(Each(PrVal, r))
PrNamed(x) == <<x.c, "=", x.v>>
PrNamedRow(r) == Paren(Each(PrNamed, r))
SameColumns(rows) == \A j \in 1..Len(rows) :
     Len(rows[j]) = Len(rows[1]) /\ \A m \in 1..Len(rows[1]) : rows[j][m].c = rows[1][m].c
PrAssign(a) == <<a.c, "=">> \o a.e
PrOpt(b, ks) == IF b THEN ks ELSE <<>>
Text(st) ==
  CASE st.k = "SELECT" ->
         <<"SELECT">> \o Commas(Each(PrSel, st.sel)) \o <<"FROM">> \o Commas(Each(PrTable, st.from))
         \o PrWhere(st.w) \o (IF st.g = "" THEN <<>> ELSE <<"GROUP", "BY", st.g>>)
         \o (IF st.o = <<>> THEN <<>> ELSE <<"ORDER", "BY">> \o Commas(Each(PrOrd, st.o)))
         \o (IF st.lim = "" THEN <<>> ELSE <<"LIMIT", st.lim>>)
         \o (IF st.off = "" THEN <<>> ELSE <<"OFFSET", st.off>>)
    [] st.k = "INSERT" ->
         <<"INSERT", "INTO">> \o PrTable(st.tb)
         \o (IF SameColumns(st.rows)
             THEN Paren([m \in 1..Len(st.rows[1]) |-> <<st.rows[1][m].c>>]) \o <<"VALUES">>
                  \o Commas(Each(PrRow, st.rows))
             ELSE <<"VALUES">> \o Commas(Each(PrNamedRow, st.rows)))
    [] st.k = "UPDATE" -> <<"UPDATE">> \o PrTable(st.tb) \o <<"SET">> \o Commas(Each(PrAssign, st.set)) \o PrWhere(st.w)
    [] st.k = "DELETE" -> <<"DELETE", "FROM">> \o PrTable(st.tb) \o PrWhere(st.w)
    [] st.k = "COPY" -> <<"COPY">> \o PrTable(st.tb)
         \o (IF st.ic = <<>> THEN <<>> ELSE Paren(Each(One, st.ic))) \o <<"FROM", st.src, st.fmt>>
    [] st.k = "CREATE TABLE" -> <<"CREATE", "TABLE">> \o PrOpt(st.opt, <<"IF", "NOT", "EXISTS">>) \o PrTable(st.tb)
         \o Paren(Each(PrCol, st.cols) \o Each(PrIdx, st.idx))
    [] st.k = "CREATE INDEX" -> <<"CREATE", "INDEX">> \o PrOpt(st.opt, <<"IF", "NOT", "EXISTS">>)
         \o <<st.idx[1].n, "ON">> \o PrTable(st.tb) \o Paren(Each(One, st.idx[1].ic))
    [] st.k = "CREATE DATABASE" -> <<"CREATE", "DATABASE">> \o PrOpt(st.opt, <<"IF", "NOT", "EXISTS">>) \o <<st.db>>
    [] st.k = "DROP DATABASE" -> <<"DROP", "DATABASE">> \o PrOpt(st.opt, <<"IF", "EXISTS">>) \o <<st.db>>
    [] st.k = "DROP TABLE" -> <<"DROP", "TABLE">> \o PrOpt(st.opt, <<"IF", "EXISTS">>) \o Commas(Each(PrTable, st.from))
    [] st.k = "DROP INDEX" -> <<"DROP", "INDEX">> \o PrOpt(st.opt, <<"IF", "EXISTS">>)
         \o (IF st.tb.t = "" THEN <<st.n>> ELSE <<st.tb.t, ".", st.n>>)
    [] st.k = "ALTER DATABASE" -> <<"ALTER", "DATABASE", st.db, "RENAME", "TO", st.to>>
    [] st.k = "ALTER TABLE" -> <<"ALTER", "TABLE">> \o PrTable(st.tb)
         \o (CASE st.act = "RENAME TO" -> <<"RENAME", "TO", st.ic[1]>>
               [] st.act = "RENAME" -> <<"RENAME", "COLUMN", st.ic[1], "TO", st.ic[2]>>
               [] st.act = "DROP" -> <<"DROP", st.ic[1]>>
               [] st.act = "ADD" -> <<"ADD">> \o PrCol(st.cols[1])
               [] st.act = "ADD INDEX" -> <<"ADD">> \o PrIdx(st.idx[1]))
    [] st.k = "TRUNCATE" -> <<"TRUNCATE", "TABLE">> \o Commas(Each(PrTable, st.from))
    [] st.k = "VACUUM" -> <<"VACUUM">> \o Commas(Each(PrTable, st.from))
    [] st.k = "USE" -> <<"USE", st.db>>
    [] OTHER -> <<st.k>>
=============================================================================
