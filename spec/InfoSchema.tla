----------------------------- MODULE InfoSchema -----------------------------
(***************************************************************************)
(* Information-schema columns statements and result sets (C18).            *)
(*                                                                         *)
(* A statement is what it asks for: the database and the tables.  It is    *)
(* built from names, read back from its SELECT, from the parsed text of its*)
(* SELECT or from an equivalent SELECT written by hand.  A result set of   *)
(* the columns of schemas is a sequence of column descriptions.            *)
(* Names are symbols "s<k>" (any text) for databases and tables and        *)
(* [b, c] (base name and letter case) for columns.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Dbs, Tabs, Cols, Types, MaxSchemas, MaxCols, Emit
VARIABLES st, hist, done
vars == <<st, hist, done>>

NoDb == ""
\* the conditions of the SELECT of a statement: database first
Conds(db, ts) == (IF db = NoDb THEN <<>> ELSE <<<<"TABLE_SCHEMA", db>>>>)
                 \o (IF ts = <<>> THEN <<>> ELSE <<<<"TABLE_NAME", ts[1]>>>>)
\* what a list of conditions, joined by AND, asks for
AskDb(cs) == LET I == {i \in 1..Len(cs) : cs[i][1] = "TABLE_SCHEMA"} IN IF I = {} THEN NoDb ELSE cs[CHOOSE i \in I : TRUE][2]
AskTabs(cs) == LET I == {i \in 1..Len(cs) : cs[i][1] = "TABLE_NAME"} IN IF I = {} THEN <<>> ELSE <<cs[CHOOSE i \in I : TRUE][2]>>

\* column descriptions of schemas [t, cols]: in order
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>>
            ELSE [i \in 1..Len(Head(ss).cols) |-> [t |-> Head(ss).t, n |-> Head(ss).cols[i].n, ty |-> Head(ss).cols[i].ty]] \o Flat(Tail(ss))
Hits(rs, b) == {i \in 1..Len(rs) : rs[i].n.b = b}

(***************************************************************************)
(* State: [db, ts] of the statement, its conditions in written order       *)
(* (cs, join), the result set rs.  An operation gives ok and the state.    *)
(***************************************************************************)
Start == [db |-> NoDb, ts |-> <<>>, cs |-> <<>>, rs |-> <<>>]
Out(ok, db, ts, cs, join, rs, at) == [ok |-> ok, db |-> db, ts |-> ts, cs |-> cs, join |-> join, rs |-> rs, at |-> at]
No == Out(FALSE, "", <<>>, <<>>, "", <<>>, 0)
Join(cs) == IF Len(cs) < 2 THEN "" ELSE "and"
Asked(s, cs) == LET s1 == [s EXCEPT !.db = AskDb(cs), !.ts = AskTabs(cs), !.cs = cs]
                IN [s |-> s1, r |-> Out(TRUE, s1.db, s1.ts, cs, Join(cs), <<>>, 0)]
Step(s, o) ==
  CASE o.op = "build" -> Asked(s, Conds(o.db, o.ts))
    [] o.op \in {"reread", "reparse"} -> Asked(s, s.cs)
    [] o.op = "write" -> \* a SELECT by hand: conditions in the order of o.cs
         IF o.cmp = "=" /\ o.join # "or" THEN Asked(s, o.cs) ELSE [s |-> s, r |-> No]
    [] o.op = "names" -> \* the SELECT of zero to two table names
         [s |-> s, r |-> Out(TRUE, "", <<>>, [i \in 1..Len(o.ts) |-> <<"TABLE_NAME", o.ts[i]>>], IF Len(o.ts) = 2 THEN "or" ELSE "", <<>>, 0)]
    [] o.op = "isq" -> [s |-> s, r |-> [No EXCEPT !.ok = o.tab = "columns"]]
    [] o.op = "schemas" -> [s |-> [s EXCEPT !.rs = Flat(o.ss)], r |-> [No EXCEPT !.ok = TRUE, !.rs = Flat(o.ss)]]
    [] o.op = "back" -> [s |-> s, r |-> [No EXCEPT !.ok = TRUE, !.rs = s.rs]]
    [] o.op = "lookup" -> IF Hits(s.rs, o.n.b) = {} THEN [s |-> s, r |-> No]
                          ELSE [s |-> s, r |-> [No EXCEPT !.ok = TRUE, !.at = CHOOSE i \in Hits(s.rs, o.n.b) : \A j \in Hits(s.rs, o.n.b) : i <= j]]

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
Blank == [op |-> "", db |-> "", ts |-> <<>>, cs |-> <<>>, cmp |-> "", join |-> "", tab |-> "", case |-> 0, n |-> [b |-> "", c |-> 0], ss |-> <<>>]
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
Perm(cs, sw) == IF sw /\ Len(cs) = 2 THEN <<cs[2], cs[1]>> ELSE cs
RandSchema(d) == [t |-> R(Tabs, d), cols |-> [i \in 1..R(0..MaxCols, d) |-> [n |-> [b |-> R(Cols, d + i), c |-> R(0..2, d + i)], ty |-> R(Types, d + i)]]]
RandOp(d) ==
  LET k == R(1..12, d)
      db == R(Dbs, d)
      t == R(Tabs, d)
      both == R(1..3, d)
      cs == CASE both = 1 -> Conds(db, <<t>>) [] both = 2 -> Conds(NoDb, <<t>>) [] OTHER -> Conds(db, <<>>)
  IN CASE k <= 3 \/ (k <= 5 /\ st.cs = <<>>) -> [Blank EXCEPT !.op = "build", !.db = IF both = 2 THEN NoDb ELSE db, !.ts = IF both = 3 THEN <<>> ELSE <<t>>]
       [] k = 4 -> [Blank EXCEPT !.op = "reread"]
       [] k = 5 -> [Blank EXCEPT !.op = "reparse"]
       [] k <= 7 -> LET c == Perm(cs, R(BOOLEAN, d))
                    IN [Blank EXCEPT !.op = "write", !.cs = c, !.cmp = R({"=", "=", "=", "!=", "<", ">", "<=", ">="}, d),
                                     !.join = IF Len(c) < 2 THEN "" ELSE R({"and", "and", "or"}, d), !.case = R(0..2, d)]
       [] k = 8 -> [Blank EXCEPT !.op = "names", !.ts = [i \in 1..R(0..2, d) |-> R(Tabs, d + i)]]
       [] k = 9 -> [Blank EXCEPT !.op = "isq", !.tab = R({"columns", "columns", "tables", "plain", "other", "two", "longer"}, d), !.case = R(0..2, d)]
       [] k = 10 -> [Blank EXCEPT !.op = "schemas", !.ss = [i \in 1..R(0..MaxSchemas, d) |-> RandSchema(d + 10 * i)]]
       [] k = 11 -> [Blank EXCEPT !.op = "back"]
       [] OTHER -> [Blank EXCEPT !.op = "lookup", !.n = [b |-> R(Cols, d), c |-> R(0..2, d)]]
Init == st = Start /\ hist = <<>> /\ done = FALSE
Act == /\ Len(hist) < MaxOps /\ ~done
       /\ \E o \in {TLCEval(RandOp(Len(hist)))} : st' = Step(st, o).s /\ hist' = Append(hist, o) /\ UNCHANGED done
Done == /\ Emit /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
        /\ PrintT("VEC " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Act \/ Done]_vars

(***************************************************************************)
(* Every building and reading of statements over small names.              *)
(***************************************************************************)
EOps(s) == {[Blank EXCEPT !.op = "build", !.db = d, !.ts = t] : d \in Dbs \cup {NoDb}, t \in {<<x>> : x \in Tabs} \cup {<<>>}}
           \cup (IF s.cs = <<>> THEN {} ELSE {[Blank EXCEPT !.op = o] : o \in {"reread", "reparse"}})
           \cup {[Blank EXCEPT !.op = "write", !.cs = Perm(Conds(d, t), sw), !.cmp = c, !.join = j, !.case = k] :
                   d \in Dbs, t \in {<<x>> : x \in Tabs}, sw \in BOOLEAN, c \in {"=", "!=", "<", ">", "<=", ">="}, j \in {"and", "or"}, k \in 0..2}
           \cup {[Blank EXCEPT !.op = "write", !.cs = q, !.cmp = c, !.case = k] :
                   q \in {Conds(d, <<>>) : d \in Dbs} \cup {Conds(NoDb, <<t>>) : t \in Tabs}, c \in {"=", "!=", "<", ">", "<=", ">="}, k \in 0..2}
EAct == /\ Len(hist) < MaxOps /\ ~done
        /\ \E o \in {x \in EOps(st) : x.op # "build" \/ x.db # NoDb \/ x.ts # <<>>} : st' = Step(st, o).s /\ hist' = Append(hist, o) /\ UNCHANGED done
ESpec == Init /\ [][EAct \/ Done]_vars

\* Reading a statement back never changes what it asks for.
ReadsBack == st.cs # <<>> => /\ AskDb(st.cs) = st.db /\ AskTabs(st.cs) = st.ts
                             /\ Step(st, [Blank EXCEPT !.op = "reread"]).s = st
=============================================================================
