------------------------------ MODULE ResultSet ------------------------------
(***************************************************************************)
(* Result sets (C13): the window of offset and limit over the source rows, *)
(* projected to the schema, and the accesses to the current row.           *)
(*                                                                         *)
(* cfg.names are the names of the source columns and cfg.rows their values *)
(* row by row; a value is [t, n] with t "nil", "v" (the n-th value of a    *)
(* pool), "num" (the number n), "low" or "up" (the n-th letter).  The      *)
(* value "none" stands for a row without the column.  cfg.schema is a      *)
(* sequence of columns [f, arg]: f "" for the column arg, otherwise the    *)
(* function f of the column arg; with cfg.proj FALSE there is no schema.   *)
(* A limit of 0 is no limit; off and lim -k stand for huge numbers.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxRows, MaxCols, Forms, Offs, Emit
VARIABLES cfg, cur, hist, done
vars == <<cfg, cur, hist, done>>

V(t, n) == [t |-> t, n |-> n]
Nil == V("nil", 0)
Huge(n) == n < 0

(***************************************************************************)
(* The rows delivered.                                                     *)
(***************************************************************************)
Window(c) ==
  LET rest == IF Huge(c.off) \/ c.off >= Len(c.rows) THEN <<>> ELSE SubSeq(c.rows, c.off + 1, Len(c.rows))
  IN IF Huge(c.lim) \/ c.lim = 0 \/ c.lim >= Len(rest) THEN rest ELSE SubSeq(rest, 1, c.lim)
Pos(names, name) == CHOOSE j \in 1..Len(names) : names[j] = name
Apply(f, v) ==
  CASE f = "" -> IF v.t = "none" THEN Nil ELSE v
    [] f = "ABS" -> V("num", IF v.n < 0 THEN -v.n ELSE v.n)
    [] f \in {"FLOOR", "CEIL"} -> v
    [] f = "UPPER" -> V("up", v.n)
    [] f = "LOWER" -> V("low", v.n)
    [] f = "TRIM" -> v
Value(c, row, col) == IF \E j \in 1..Len(c.names) : c.names[j] = col.arg
                      THEN Apply(col.f, row[Pos(c.names, col.arg)]) ELSE Nil
\* Names and values of the row a user sees.
Names(c) == IF ~c.proj THEN c.names
            ELSE [k \in 1..Len(c.schema) |-> IF c.schema[k].f = "" THEN c.schema[k].arg ELSE c.schema[k].f \o "(" \o c.schema[k].arg \o ")"]
Values(c, row) == IF ~c.proj THEN row ELSE [k \in 1..Len(c.schema) |-> Value(c, row, c.schema[k])]

(***************************************************************************)
(* The state is the cursor: 0 before the first row, the number of the row  *)
(* in the window, or one past the last.                                    *)
(***************************************************************************)
Out(ok, b, vals) == [ok |-> ok, b |-> b, vals |-> vals]
Err == Out(FALSE, FALSE, <<>>)
Known(c, name) == \E k \in 1..Len(Names(c)) : Names(c)[k] = name
Access(c, row, o) ==
  LET vs == Values(c, row)
  IN CASE o.op \in {"row", "object"} -> Out(TRUE, FALSE, vs)
       [] o.op \in {"at", "scanat"} -> IF o.i >= 0 /\ o.i < Len(vs) THEN Out(TRUE, FALSE, <<vs[o.i + 1]>>) ELSE Err
       [] o.op \in {"by", "scanby"} -> IF Known(c, o.name) THEN Out(TRUE, FALSE, <<vs[Pos(Names(c), o.name)]>>) ELSE Err
       [] o.op = "scan" -> IF o.i <= Len(vs) THEN Out(TRUE, FALSE, SubSeq(vs, 1, o.i)) ELSE Err
Step(c, k, o) ==
  LET W == Window(c)
  IN IF o.op = "next" THEN [s |-> IF k < Len(W) THEN k + 1 ELSE Len(W) + 1, r |-> Out(TRUE, k < Len(W), <<>>)]
     ELSE IF o.op = "lookup" THEN [s |-> k, r |-> IF c.proj /\ Known(c, o.name) THEN Out(TRUE, FALSE, <<>>) ELSE Err]
     ELSE [s |-> k, r |-> IF k = 0 \/ k > Len(W) THEN Err ELSE Access(c, W[k], o)]

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
Op(op, i, name) == [op |-> op, i |-> i, name |-> name]
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
Low == {"a", "b", "c"}     \* columns of any value
NumCols == {"m", "n"}      \* columns of numbers
StrCols == {"s"}           \* columns of letters
RandVal(name, d) == CASE name \in NumCols -> V("num", R(-9..9, d))
                      [] name \in StrCols -> V(R({"low", "up"}, d), R(1..26, d))
                      [] OTHER -> IF R(1..6, d) = 1 THEN Nil ELSE V("v", R(1..12, d))
\* "obj": maps in alphabetical order; "vals": value rows with a schema of their own in any order;
\* "pos": value rows without a schema, whose columns are numbered
RandNames(form, d) ==
  CASE form = "pos" -> SubSeq(<<"1", "2", "3", "4">>, 1, R(1..4, d))
    [] form = "obj" -> R({<<"a", "b", "c", "m", "n", "s">>, <<"a">>, <<"a", "b", "s">>, <<"b", "m", "n">>, <<"m", "s">>}, d)
    [] OTHER -> R({<<"s", "a", "n">>, <<"c", "b">>, <<"n", "m", "s", "b", "a", "c">>, <<"b">>, <<"m", "a">>}, d)
RandCol(names, d) ==
  LET has(S) == \E j \in 1..Len(names) : names[j] \in S
      num == {names[j] : j \in 1..Len(names)} \cap NumCols
      str == {names[j] : j \in 1..Len(names)} \cap StrCols
      k == R(1..10, d)
  IN CASE k <= 2 /\ num # {} -> [f |-> R({"ABS", "FLOOR", "CEIL"}, d), arg |-> R(num, d)]
       [] k = 3 /\ str # {} -> [f |-> R({"UPPER", "LOWER", "TRIM"}, d), arg |-> R(str, d)]
       [] k = 4 -> [f |-> "", arg |-> R({"zz", "a", "q"}, d)]
       [] OTHER -> [f |-> "", arg |-> names[R(1..Len(names), d)]]
\* a column missing from a map row: only one that is not the argument of a function
Drop(form, proj, name, v, d) == IF form = "obj" /\ proj /\ name \in Low /\ R(1..8, d) = 1 THEN V("none", 0) ELSE v
RandCfg(d) ==
  LET form == R(Forms, d)
      names == RandNames(form, d)
      proj == IF form = "pos" THEN FALSE ELSE R(1..4, d) # 1
      n == R(0..MaxRows, d)
  IN [form |-> form, names |-> names, proj |-> proj,
      rows |-> [r \in 1..n |-> [j \in 1..Len(names) |-> Drop(form, proj, names[j], RandVal(names[j], d + r + j), d + r + j)]],
      schema |-> IF proj THEN [k \in 1..R(1..MaxCols, d) |-> RandCol(names, d + k)] ELSE <<>>,
      off |-> IF R(1..2, d) = 1 THEN 0 ELSE R(Offs \cup 0..(n + 1), d),
      lim |-> IF R(1..2, d) = 1 THEN 0 ELSE R(Offs \cup 0..(n + 1), d)]
SomeName(c, d) == IF R(1..4, d) = 1 THEN R({"a", "b", "n", "s", "zz", "A", "", "nosuch", "ABS(n)", "ABS", "1"}, d)
                  ELSE Names(c)[R(1..Len(Names(c)), d)]
RandOp(c, d) ==
  LET k == R(1..20, d)
      n == Len(Names(c))
  IN CASE k <= 8 -> Op("next", 0, "")
       [] k <= 11 -> Op("row", 0, "")
       [] k = 12 -> Op("object", 0, "")
       [] k <= 14 -> Op("at", R((-1)..(n + 1), d), "")
       [] k <= 16 -> Op("by", 0, SomeName(c, d))
       [] k = 17 -> Op("scan", R(0..(n + 1), d), "")
       [] k = 18 -> Op("scanat", R((-1)..(n + 1), d), "")
       [] k = 19 -> Op("scanby", 0, SomeName(c, d))
       [] OTHER -> Op("lookup", 0, SomeName(c, d))

NoCfg == [form |-> "", names |-> <<>>, proj |-> FALSE, rows |-> <<>>, schema |-> <<>>, off |-> 0, lim |-> 0]
Init == cfg = NoCfg /\ cur = 0 /\ hist = <<>> /\ done = FALSE
Setup == /\ cfg.form = "" /\ \E c \in {TLCEval(RandCfg(0))} : cfg' = c
         /\ UNCHANGED <<cur, hist, done>>
Act == /\ cfg.form # "" /\ Len(hist) < MaxOps
       /\ \E o \in {TLCEval(RandOp(cfg, Len(hist)))} : cur' = Step(cfg, cur, o).s /\ hist' = Append(hist, o)
       /\ UNCHANGED <<cfg, done>>
Done == /\ Emit /\ cfg.form # "" /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, cur, hist>>
        /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Setup \/ Act \/ Done]_vars

(***************************************************************************)
(* Every window of small result sets, read to the end and beyond.          *)
(***************************************************************************)
EInit == /\ \E n \in 0..MaxRows, off \in Offs \cup 0..(MaxRows + 1), lim \in Offs \cup 0..(MaxRows + 1), proj \in BOOLEAN, form \in {"obj", "vals"} :
              cfg = [form |-> form, names |-> <<"a", "n">>, proj |-> proj,
                     rows |-> [r \in 1..n |-> <<V("v", r), V("num", -r)>>],
                     schema |-> IF proj THEN <<[f |-> "ABS", arg |-> "n"], [f |-> "", arg |-> "a"]>> ELSE <<>>,
                     off |-> off, lim |-> lim]
         /\ cur = 0 /\ hist = <<>> /\ done = FALSE
EAct == /\ Len(hist) < 2 * MaxRows + 5
        /\ LET o == Op(IF Len(hist) % 2 = 0 THEN "row" ELSE "next", 0, "")
           IN cur' = Step(cfg, cur, o).s /\ hist' = Append(hist, o)
        /\ UNCHANGED <<cfg, done>>
EDone == /\ Emit /\ Len(hist) = 2 * MaxRows + 5 /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, cur, hist>>
         /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
ESpec == EInit /\ [][EAct \/ EDone]_vars

(***************************************************************************)
(* The window by arithmetic: the k-th delivered row is source row off + k, *)
(* and a row is delivered exactly when it lies in the window.              *)
(***************************************************************************)
WindowExact ==
  LET W == Window(cfg)
      n == Len(cfg.rows)
      In(j) == ~Huge(cfg.off) /\ j > cfg.off /\ (cfg.lim <= 0 \/ j <= cfg.off + cfg.lim)
  IN /\ Len(W) = Cardinality({j \in 1..n : In(j)})
     /\ \A k \in 1..Len(W) : W[k] = cfg.rows[cfg.off + k]
\* the cursor only moves forward, one row at a time, and stays in range
Forward == [][cur' = cur \/ cur' = cur + 1]_cur
=============================================================================
