-------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* Column lists of parsed statements: applying a schema, setting values    *)
(* and copying (C15).                                                      *)
(*                                                                         *)
(* A number is [neg, ip, fp]: sign and the decimal digits before and after *)
(* the point (no leading or trailing zeros).  A literal is                 *)
(* [k, kind, num, w]: k identifies its written text, kind "num", "bool" or *)
(* "text", num its number (of a text: none), w the word of a bool.  A      *)
(* column value is [t, k, num, b]: t "lit" (the text of literal k as       *)
(* written) or a Go type with its number or truth value.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxLists, MaxCols, Types, Emit
VARIABLES cfg, st, hist, done
vars == <<cfg, st, hist, done>>

Num(neg, ip, fp) == [neg |-> neg, ip |-> ip, fp |-> fp]
Zero == Num(FALSE, <<>>, <<>>)
\* magnitude comparison of digit sequences without leading zeros
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
MaxOf == [TINYINT |-> <<1, 2, 7>>, SMALLINT |-> <<3, 2, 7, 6, 7>>, INT |-> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>,
          INTEGER |-> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>,
          BIGINT |-> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>]
MinOf == [TINYINT |-> <<1, 2, 8>>, SMALLINT |-> <<3, 2, 7, 6, 8>>, INT |-> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>,
          INTEGER |-> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>,
          BIGINT |-> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>]
IntTypes == DOMAIN MaxOf
Fits(n, ty) == n.fp = <<>> /\ Leq(n.ip, IF n.neg THEN MinOf[ty] ELSE MaxOf[ty])
GoType == [TINYINT |-> "int8", SMALLINT |-> "int16", INT |-> "int32", INTEGER |-> "int32", BIGINT |-> "int64",
           FLOAT |-> "float32", DOUBLE |-> "float64", BOOLEAN |-> "bool"]
Others == {"TEXT", "VARCHAR(20)", "DATETIME", "BLOB", "LONGTEXT", "CHAR(3)"}

Val(t, k, num, b) == [t |-> t, k |-> k, num |-> num, b |-> b]
LitVal(l) == Val("lit", l.k, Zero, FALSE)
\* Conversion of value v to type ty: "ok" with the value, "no" or "any" (not specified).
\* L gives the literals.
Res(how, v) == [how |-> how, v |-> v]
\* a number which a float type rounds: its conversion to another type is not specified
Short(n, max) == Len(n.ip) + Len(n.fp) <= max
Rounded(v, ty) == \/ v.t = "float32" /\ ty \in IntTypes /\ ~Short(v.num, 6)
                  \/ v.t = "float32" /\ ty = "DOUBLE" /\ ~(Short(v.num, 6) /\ v.num.fp = <<>>)
                  \/ v.t = "float64" /\ ty \in IntTypes /\ ~Short(v.num, 15)
Convert(L, v, ty) ==
  LET l == L[v.k]
      isnum == (v.t = "lit" /\ l.kind = "num") \/ v.t \notin {"lit", "bool"}
      n == IF v.t = "lit" THEN l.num ELSE v.num
  IN CASE ty \notin DOMAIN GoType -> Res("ok", v)
       [] Rounded(v, ty) -> Res("any", v)
       [] ty \in IntTypes -> IF isnum THEN (IF Fits(n, ty) THEN Res("ok", Val(GoType[ty], v.k, [n EXCEPT !.neg = @ /\ n.ip # <<>>], FALSE)) ELSE Res("no", v))
                             ELSE IF v.t = "lit" /\ l.kind = "text" THEN Res("no", v) ELSE Res("any", v)
       [] ty \in {"FLOAT", "DOUBLE"} -> IF isnum THEN Res("ok", Val(GoType[ty], v.k, n, FALSE))
                                        ELSE IF v.t = "lit" /\ l.kind = "text" THEN Res("no", v) ELSE Res("any", v)
       [] ty = "BOOLEAN" -> IF v.t = "bool" THEN Res("ok", v)
                            ELSE IF v.t # "lit" THEN Res("any", v)
                            ELSE IF l.kind = "bool" THEN Res("ok", Val("bool", v.k, Zero, l.w = "TRUE"))
                            ELSE IF l.kind = "num" THEN Res("any", v) ELSE Res("no", v)

(***************************************************************************)
(* State: the lists.  A list is [dead, cols]; a column [n, ty, v].  After a*)
(* failed conversion the content of a list is not specified (dead).        *)
(***************************************************************************)
Same(a, b) == a.b = b.b
HasType(sch, n) == \E j \in 1..Len(sch) : Same(sch[j].n, n)
TypeIn(sch, n) == sch[CHOOSE j \in 1..Len(sch) : Same(sch[j].n, n) /\ \A i \in 1..(j - 1) : ~Same(sch[i].n, n)].ty
Out(how, all) == [how |-> how, all |-> all]
Worst(S) == IF "any" \in S THEN "any" ELSE IF "no" \in S THEN "no" ELSE "ok"
Step(c, S, o) ==
  CASE o.op = "copy" -> LET S1 == Append(S, S[o.s]) IN [s |-> S1, r |-> Out("ok", S1)]
    [] o.op = "schema" ->
         LET me == S[o.s].cols
             sch == c.schemas[o.i]
             conv(j) == IF HasType(sch, me[j].n) THEN Convert(c.lits, me[j].v, TypeIn(sch, me[j].n)) ELSE Res("no", me[j].v)
             hows == {conv(j).how : j \in 1..Len(me)}
             how == Worst(hows)
             S1 == IF how = "ok" THEN [S EXCEPT ![o.s].cols = [j \in 1..Len(me) |-> [n |-> me[j].n, ty |-> TypeIn(sch, me[j].n), v |-> conv(j).v]]]
                   ELSE [S EXCEPT ![o.s].dead = TRUE]
         IN [s |-> S1, r |-> Out(how, S1)]
    [] o.op = "value" ->
         LET col == S[o.s].cols[o.i]
             r == IF col.ty = "" THEN Res("ok", LitVal(c.lits[o.k])) ELSE Convert(c.lits, LitVal(c.lits[o.k]), col.ty)
             S1 == IF r.how = "ok" THEN [S EXCEPT ![o.s].cols[o.i].v = r.v] ELSE [S EXCEPT ![o.s].dead = TRUE]
         IN [s |-> S1, r |-> Out(r.how, S1)]
StartList(c) == <<[dead |-> FALSE, cols |-> [j \in 1..Len(c.cols) |-> [n |-> c.cols[j], ty |-> "", v |-> LitVal(c.lits[j])]]]>>

(***************************************************************************)
(* Random histories.                                                       *)
(***************************************************************************)
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
Edge == {MaxOf[t] : t \in IntTypes} \cup {MinOf[t] : t \in IntTypes} \cup
        {<<1, 2, 9>>, <<3, 2, 7, 6, 9>>, <<2, 5, 5>>, <<6, 5, 5, 3, 6>>, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 9>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>,
         <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 9>>, <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 3>>,
         <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>}
Digits(n, d) == [j \in 1..n |-> IF j = 1 \/ j = n THEN R(1..9, d + j) ELSE R(0..9, d + j)]
RandNum(d) ==
  LET k == R(1..12, d)
  IN CASE k = 1 -> Zero
       [] k <= 5 -> Num(R(BOOLEAN, d), R(Edge, d), <<>>)
       [] k <= 8 -> Num(R(BOOLEAN, d), Digits(R(1..4, d), d), <<>>)
       [] k = 9 -> Num(R(BOOLEAN, d), Digits(R(1..20, d), d), <<>>)
       [] OTHER -> Num(R(BOOLEAN, d), Digits(R(0..3, d), d), Digits(R(1..3, d), d + 50))
RandLit(k, d) ==
  LET r == R(1..10, d)
      kind == IF r <= 7 THEN "num" ELSE IF r = 8 THEN "bool" ELSE "text"
  IN [k |-> k, kind |-> kind, num |-> IF kind = "num" THEN RandNum(d) ELSE Zero, w |-> R({"TRUE", "FALSE"}, d)]
Name(b, c) == [b |-> b, c |-> c]
Bases == <<"a", "b", "c", "d", "e">>
RandSchema(d) ==
  LET n == R(MaxCols..5, d)
      rot == R(0..4, d)
  IN [j \in 1..n |-> [n |-> Name(Bases[((j + rot) % 5) + 1], R(0..2, d + j)), ty |-> R(Types, d + j)]]
RandCfg(d) ==
  LET n == R(1..MaxCols, d)
  IN [cols |-> [j \in 1..n |-> Name(Bases[j], R(0..2, d + j))],
      lits |-> [k \in 1..(n + MaxOps) |-> RandLit(k, d + 7 * k)],
      how |-> R({"insert", "named", "update"}, d),
      \* the second schema mostly knows all columns
      schemas |-> [j \in 1..3 |-> IF R(1..4, d + j) = 1 THEN RandSchema(d + j)
                                  ELSE [i \in 1..5 |-> [n |-> Name(Bases[6 - i], R(0..2, d + j + i)), ty |-> R(Types, d + j + i)]]]]
Op(op, s, i, k) == [op |-> op, s |-> s, i |-> i, k |-> k]
Live(S) == {s \in 1..Len(S) : ~S[s].dead}
RandOp(d) ==
  LET s == R(Live(st), d)
      r == R(1..10, d)
  IN CASE r <= 3 /\ Len(st) < MaxLists -> Op("copy", s, 0, 1)
       [] r <= 6 -> Op("schema", s, R(1..3, d), 1)
       [] OTHER -> Op("value", s, R(1..Len(st[s].cols), d), R(1..Len(cfg.lits), d))
NoCfg == [cols |-> <<>>, lits |-> <<>>, how |-> "", schemas |-> <<>>]
Init == cfg = NoCfg /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Setup == /\ cfg.how = "" /\ \E c \in {TLCEval(RandCfg(0))} : cfg' = c /\ st' = StartList(c)
         /\ UNCHANGED <<hist, done>>
Act == /\ cfg.how # "" /\ Len(hist) < MaxOps /\ Live(st) # {}
       /\ \E o \in {TLCEval(RandOp(Len(hist)))} : st' = Step(cfg, st, o).s /\ hist' = Append(hist, o)
       /\ UNCHANGED <<cfg, done>>
Done == /\ Emit /\ cfg.how # "" /\ (Len(hist) = MaxOps \/ Live(st) = {}) /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
        /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Setup \/ Act \/ Done]_vars

(***************************************************************************)
(* A conversion keeps the number, and an operation on a list leaves the    *)
(* other lists alone.                                                      *)
(***************************************************************************)
KeepsValue == \A s \in Live(st), j \in 1..Len(cfg.cols) :
                LET v == st[s].cols[j].v
                IN v.t \notin {"lit", "bool"} => /\ v.num.ip = cfg.lits[v.k].num.ip /\ v.num.fp = cfg.lits[v.k].num.fp
                                                 /\ (v.num.ip # <<>> => v.num.neg = cfg.lits[v.k].num.neg)
Independent == [][hist # <<>> /\ Len(hist') = Len(hist) + 1 =>
                    \A s \in 1..Len(st) : s # hist'[Len(hist')].s => st'[s] = st[s]]_vars
=============================================================================
