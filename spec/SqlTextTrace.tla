---------------------------- MODULE SqlTextTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded parses of arbitrary texts (C07): a record has   *)
(* the text, the outcome res ("ok", "err", "both" or "panic"), the number  *)
(* n of returned statements and whether the error is the empty-query error.*)
(***************************************************************************)
EXTENDS SqlGrammar, TextEdit, FiniteSets, Functions, Json, IOUtils

CONSTANT Printed    \* data manipulation statements are printed as they were written

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RECURSIVE EditAll(_, _)
EditAll(s, es) == IF es = <<>> THEN s ELSE EditAll(Edited(s, Head(es)), Tail(es))
\* the statements of a script, each a sequence of tokens
RECURSIVE Split(_, _, _)
Split(T, j, acc) == IF j > Len(T) THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
                    ELSE IF T[j].c = ";" THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>) \o Split(T, j + 1, <<>>)
                    ELSE Split(T, j + 1, Append(acc, T[j]))
(***************************************************************************)
(* The canonical form of a data manipulation statement: what is printed    *)
(* for it, as tokens.  Conflict clauses are dropped; names are compared by *)
(* their content, other tokens by class and text.                          *)
(***************************************************************************)
RECURSIVE Unquoted(_, _, _)
Unquoted(s, i, q) == IF i >= Len(s) THEN ""
                     ELSE IF At(s, i) = q THEN q \o Unquoted(s, i + 2, q) ELSE At(s, i) \o Unquoted(s, i + 1, q)
Content(s) == LET q == At(s, 1) IN IF q \in {"\"", "`", "'"} THEN Unquoted(s, 2, q) ELSE IF q = "[" THEN SubSeq(s, 2, Len(s) - 1) ELSE s
Tok(c, v) == [c |-> c, v |-> v]
Plain(t) == CASE t.c = "IDENT" -> Tok("IDENT", Content(t.v))
              [] t.c \in {"STR", "NUM", "BLOB", "BIND", "SYSVAR", "USERVAR"} -> t
              [] t.c = "<>" -> Tok("!=", "")
              [] OTHER -> Tok(t.c, "")
Normal(T) == [j \in 1..Len(T) |-> Plain(T[j])]
Upto(T, n) == IF Len(T) < n THEN T ELSE SubSeq(T, 1, n)
From(T, n) == IF Len(T) < n THEN <<>> ELSE SubSeq(T, n, Len(T))
Kw(c) == Tok(c, "")
\* the parts of the list which starts at j, up to its end
RECURSIVE Items(_, _, _)
Items(T, j, acc) == IF j > Len(T) \/ T[j].c = ")" THEN <<acc>>
                    ELSE IF T[j].c = "," THEN <<acc>> \o Items(T, j + 1, <<>>) ELSE Items(T, j + 1, Append(acc, T[j]))
RECURSIVE Lists(_, _)
Lists(T, j) == IF j > Len(T) \/ T[j].c # "(" THEN <<>>
               ELSE LET e == CHOOSE k \in j..Len(T) : T[k].c = ")" /\ \A i \in j..(k - 1) : T[i].c # ")"
                    IN <<Items(T, j + 1, <<>>)>> \o Lists(T, e + 2)
\* the table and the rows of an INSERT: each value with its column
Rows(T) ==
  LET v == CHOOSE j \in 1..Len(T) : T[j].c = "VALUES"
      O == {j \in 1..v : T[j].c = "("}
      o == IF O = {} THEN v ELSE CHOOSE j \in O : \A k \in O : j <= k
      names == IF O = {} THEN <<>> ELSE Items(T, o + 1, <<>>)
      row(r) == [j \in 1..Len(r) |-> IF O = {} THEN <<<<r[j][1]>>, From(r[j], 3)>> ELSE <<names[j], r[j]>>]
      L == Lists(T, v + 1)
  IN <<SubSeq(T, 1, o - 1), [k \in 1..Len(L) |-> row(L[k])]>>
Formats == {"TEXT", "CSV", "BINARY"}
IsDml(T) == T # <<>> /\ T[1].c \in {"INSERT", "REPLACE", "UPDATE", "DELETE", "COPY"}
Canon(T0) ==
  LET T == Normal(T0)
      n == Len(T)
      \* INSERT OR x, UPDATE OR x
      U == IF n > 2 /\ T[1].c \in {"INSERT", "UPDATE"} /\ T[2].c = "OR" THEN <<T[1]>> \o From(T, 4) ELSE T
  IN CASE U[1].c \in {"INSERT", "REPLACE"} -> Rows(<<Kw("INSERT")>> \o Tail(U))
       [] U[1].c = "COPY" ->
            LET f == CHOOSE j \in 1..n : U[j].c = "FROM"
                rest == From(U, f + 2)
            IN Upto(U, f) \o <<Tok("SOURCE", Content(T0[f + 1].v))>>
                 \o <<IF rest # <<>> /\ rest[Len(rest)].c \in Formats THEN rest[Len(rest)] ELSE Kw("TEXT")>>
       [] OTHER -> U
(***************************************************************************)
(* The canonical form of a SELECT: its clauses, each a list of parts.      *)
(***************************************************************************)
Heads == {"FROM", "WHERE", "GROUP", "HAVING", "WINDOW", "ORDER", "LIMIT"}
Deeper(t, d) == IF t.c = "(" THEN d + 1 ELSE IF t.c = ")" THEN d - 1 ELSE d
\* the parts between the tokens of classes C outside parentheses; a part starts with its separator if keep
RECURSIVE PartsOf(_, _, _, _, _, _)
PartsOf(T, j, d, C, keep, acc) ==
  IF j > Len(T) THEN <<acc>>
  ELSE IF d = 0 /\ T[j].c \in C THEN <<acc>> \o PartsOf(T, j + 1, d, C, keep, IF keep THEN <<T[j]>> ELSE <<>>)
  ELSE PartsOf(T, j + 1, Deeper(T[j], d), C, keep, Append(acc, T[j]))
Comma(T) == IF T = <<>> THEN <<>> ELSE PartsOf(T, 1, 0, {","}, FALSE, <<>>)
Clauses(T) == PartsOf(T, 1, 0, Heads, TRUE, <<>>)
Clause(P, h) == LET F == {j \in 2..Len(P) : P[j][1].c = h} IN IF F = {} THEN <<>> ELSE P[CHOOSE j \in F : TRUE]
OnePer(P) == Len(P) = 1 + Cardinality({P[j][1].c : j \in 2..Len(P)})
\* without the alias
IsName(t) == t.c \in {"IDENT", "STR"} \cup NameKeywords
Bare(I) ==
  LET A == PartsOf(I, 1, 0, {"AS"}, FALSE, <<>>)
      n == Len(I)
  IN IF Len(A) > 1 THEN A[1]
     ELSE IF n > 1 /\ IsName(I[n]) /\ (IsName(I[n - 1]) \/ I[n - 1].c \in {")", "NUM", "BIND", "*", "NULL", "TRUE", "FALSE"}) /\ ~(I[n - 1].c = "*" /\ n > 2 /\ I[n - 2].c # "(") THEN SubSeq(I, 1, n - 1)
     ELSE I
UpperFn(I) == [j \in 1..Len(I) |-> IF j < Len(I) /\ I[j + 1].c = "(" /\ I[j].c = "IDENT" THEN Tok("IDENT", Up(I[j].v)) ELSE I[j]]
Selected(I) == UpperFn(Bare(I))
\* a table without alias and index hint
Source(I) == LET P == PartsOf(I, 1, 0, {"INDEXED", "NOT"}, FALSE, <<>>) IN Bare(P[1])
Sorted(I) == LET P == PartsOf(I, 1, 0, {"NULLS"}, FALSE, <<>>)[1]
             IN IF P[Len(P)].c \in {"ASC", "DESC"} THEN P ELSE Append(P, Kw("ASC"))
\* LIMIT m, n is LIMIT n OFFSET m
Window(L) ==
  LET P == Comma(L)
      Q == PartsOf(L, 1, 0, {"OFFSET"}, FALSE, <<>>)
      pair == IF Len(P) = 2 THEN <<P[2], From(P[1], 2)>> ELSE IF Len(Q) = 2 THEN <<From(Q[1], 2), Q[2]>> ELSE <<From(L, 2), <<>>>>
  IN IF L = <<>> THEN <<<<>>, <<>>>> ELSE <<Upto(pair[1], 99), pair[2]>>
Compares == {"=", "!=", "<", ">", "<=", ">="}
Simple(T) == \E j \in 2..(Len(T) - 1) : T[j].c \in Compares
                  /\ \A k \in (1..Len(T)) \ {j} : T[k].c \in {"IDENT", "NUM", "STR", "BIND", "."}
\* conditions which are represented
Represented(W) == LET P == PartsOf(From(W, 2), 1, 0, {"AND", "OR"}, FALSE, <<>>) IN Len(P) <= 2 /\ \A j \in 1..Len(P) : Simple(P[j])
IsSelect(T) == T # <<>> /\ T[1].c = "SELECT"
CanonSelect(T0) ==
  LET T == Normal(T0)
      P == Clauses(T)
      S == Comma(IF Len(P[1]) > 1 /\ P[1][2].c \in {"DISTINCT", "ALL"} THEN From(P[1], 3) ELSE From(P[1], 2))
      F == Comma(From(Clause(P, "FROM"), 2))
      O == Comma(From(Clause(P, "ORDER"), 3))
  IN [sel |-> [j \in 1..Len(S) |-> Selected(S[j])], from |-> [j \in 1..Len(F) |-> Source(F[j])], where |-> Clause(P, "WHERE"),
      group |-> Clause(P, "GROUP"), having |-> Clause(P, "HAVING"), window |-> Clause(P, "WINDOW"),
      order |-> [j \in 1..Len(O) |-> Sorted(O[j])], limit |-> Window(Clause(P, "LIMIT"))]
\* The parts are plain: names, literals, calls and operators; keywords which are used as names are not told apart here.
\* Known findings: a parameter as limit is dropped, as is the sign of a limit.
PlainWords == {"IDENT", "NUM", "STR", "BIND", "NULL", "*", ".", "(", ")", ",", "AS", "+", "-", "/", "%", "=", "<", ">", "<=", ">=", "!=", "<>"}
Ended(t, n) == IsName(t[n]) \/ t[n].c \in {")", "NUM", "BIND", "NULL"} \/ (t[n].c = "*" /\ n > 1 /\ t[n - 1].c \in {"SELECT", "ALL", "DISTINCT", ",", ".", "("})
PlainSelect(T) ==
  LET P == Clauses(T)
      L == Clause(P, "LIMIT")
      F == Clause(P, "FROM")
  IN /\ OnePer(P)
     /\ \A j \in 2..Len(P[1]) : P[1][j].c \in PlainWords \/ (j = 2 /\ P[1][j].c \in {"DISTINCT", "ALL"})
     /\ \A j \in 2..Len(F) : F[j].c \in PlainWords
     /\ Len(F) > 1 /\ Len(P[1]) > 1 /\ (P[1][2].c \in {"DISTINCT", "ALL"} => Len(P[1]) > 2 /\ (P[1][3].c \in {"IDENT", "NUM", "STR", "BIND"} \/ (P[1][3].c = "*" /\ (Len(P[1]) = 3 \/ P[1][4].c = ",")))) /\ Ended(P[1], Len(P[1])) /\ F[Len(F)].c \notin {",", "."} /\ \A j \in 2..Len(F) : F[j].c # "("
     /\ \A h \in {"GROUP", "ORDER"} : LET G == Clause(P, h) IN G # <<>> => Len(G) > 2 /\ G[2].c = "BY"
     /\ \A t \in Range(Comma(From(Clause(P, "ORDER"), 3))) : t # <<>> /\ t[1].c \in PlainWords /\ (\A j \in 2..(Len(t) - 1) : t[j].c \in PlainWords) /\ (Len(t) > 1 => Ended(t, Len(t) - 1))
     /\ Len(Comma(Clause(P, "WHERE"))) <= 1
     /\ \A j \in 2..Len(L) : L[j].c \in {",", "OFFSET"} \/ (L[j].c = "NUM" /\ \A k \in 1..Len(L[j].v) : At(L[j].v, k) \in Digits)
SameSelect(T, p) ==
  PlainSelect(T) =>
  LET w == CanonSelect(T)
      U == Lex(p)
      g == CanonSelect(U)
  IN IsSelect(U) /\ (g = w \/ (g = [w EXCEPT !.where = <<>>] /\ ~Represented(w.where)))
\* the number of parts at depth 1 of the parenthesised list which starts at position j, and the position after it
RECURSIVE ListEnd(_, _, _), Parts(_, _, _)
ListEnd(C, j, d) == IF j > Len(C) THEN j ELSE IF C[j] = "(" THEN ListEnd(C, j + 1, d + 1)
                    ELSE IF C[j] = ")" THEN (IF d = 1 THEN j + 1 ELSE ListEnd(C, j + 1, d - 1)) ELSE ListEnd(C, j + 1, d)
Parts(C, j, d) == IF j > Len(C) THEN 0 ELSE IF C[j] = "(" THEN Parts(C, j + 1, d + 1)
                  ELSE IF C[j] = ")" THEN (IF d = 1 THEN 1 ELSE Parts(C, j + 1, d - 1))
                  ELSE (IF C[j] = "," /\ d = 1 THEN 1 ELSE 0) + Parts(C, j + 1, d)
RECURSIVE RowsHave(_, _, _)
RowsHave(C, j, n) == j > Len(C) \/ C[j] # "(" \/ (Parts(C, j, 0) = n /\ RowsHave(C, ListEnd(C, j, 0) + 1, n))
\* every row of an INSERT with a column list has a value per column
RowsFit(C) ==
  LET V == {j \in 1..Len(C) : C[j] = "VALUES"}
      v == CHOOSE j \in V : TRUE
      O == {j \in 2..Len(C) : C[j] = "(" /\ C[j - 1] \notin {"INTO", "."}}
      o == CHOOSE j \in O : \A k \in O : j <= k
  IN Cardinality(V) # 1 \/ O = {} \/ o > v \/ ListEnd(C, o, 0) # v \/ RowsHave(C, v + 1, Parts(C, o, 0))
\* known finding: the quotes of the names of a COPY are not printed
BareCopy(T) == T[1].c = "COPY" /\ \E j \in 2..Len(T) : T[j].c = "FROM" /\ \E k \in 2..(j - 1) : At(T[k].v, 1) \in {"'", "\"", "`", "["}
Whole(S, P) == Len(S) = Len(P) => /\ \A j \in 1..Len(S) : IsSelect(S[j]) => SameSelect(S[j], P[j])
  /\ (\A j \in 1..Len(S) : IsDml(S[j]) /\ ~BareCopy(S[j]) => LET T == Lex(P[j]) IN IsDml(T) /\ Canon(T) = Canon(S[j]))
Judge(r) ==
  IF r.res \notin {"ok", "err"} THEN r.res
  ELSE IF r.plain /\ r.text # EditAll(r.was, r.edits) THEN "the driver did not make the edits"
  ELSE IF r.res = "err" THEN (IF r.n # 0 THEN "statements with an error"
                              ELSE IF r.text = "" /\ ~r.empty THEN "an empty text is not the empty-query error"
                              ELSE IF r.empty /\ \E j \in 1..Len(Classes(Lex(r.text))) : Classes(Lex(r.text))[j] # ";" THEN "the empty-query error for a text" ELSE "")
  ELSE IF r.text = "" THEN "an empty text is accepted"
  ELSE LET T == Lex(r.text)
           C == Classes(T)
           S == Split(T, 1, <<>>)
       IN IF ~Derives("script", C) THEN "accepted a text which is not a sequence of statements"
          ELSE IF r.n # Len(S) THEN "the number of statements is " \o ToString(r.n)
          ELSE IF \E j \in 1..Len(S) : S[j][1].c \in {"INSERT", "REPLACE"} /\ ~RowsFit(Classes(S[j])) THEN "accepted a row whose values do not fit the columns"
          ELSE IF Printed /\ ~Whole(S, r.printed)
            THEN "a statement is not printed as it was written"
          ELSE ""
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET why == Judge(Trace[l])
           IN IF why = "" THEN TRUE ELSE PrintT("BAD " \o ToString(Trace[l].id) \o " " \o why)
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
