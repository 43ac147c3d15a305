--------------------------------- MODULE Aggr ---------------------------------
(***************************************************************************)
(* The aggregators of sql/fn (C10): SUM, AVG, MIN, MAX and COUNT with or   *)
(* without grouping.                                                       *)
(*                                                                         *)
(* A value is [t, n]: t "null", "num" (n the number) or "bad" (not a       *)
(* number).  A group key is a sequence of ranks, one per grouping column;  *)
(* rank 0 is NULL.  The driver maps ranks to Go values of one type per     *)
(* column, in increasing order, and numbers to Go values of many types.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Fns, Args, Groups, KeyMax, Nums, Forms, Emit
VARIABLES cfg, st, hist, done
vars == <<cfg, st, hist, done>>

Null == [t |-> "null", n |-> 0]
Bad  == [t |-> "bad", n |-> 0]
Num(n) == [t |-> "num", n |-> n]

(***************************************************************************)
(* State: the grouping columns and, per group in order of appearance, its  *)
(* key and one accumulator per argument.                                   *)
(***************************************************************************)
Acc0 == [cnt |-> 0, sum |-> 0, min |-> 0, max |-> 0]
Start(gs) == [gs |-> gs, groups |-> <<>>]
\* A value that counts: not NULL, or the argument is the asterisk.
Counts(c, j, v) == v.t # "null" \/ c.args[j] = "*"
Add(c, j, a, v) ==
  IF ~Counts(c, j, v) THEN a
  ELSE [cnt |-> a.cnt + 1, sum |-> a.sum + v.n,
        min |-> IF a.cnt = 0 \/ v.n < a.min THEN v.n ELSE a.min,
        max |-> IF a.cnt = 0 \/ v.n > a.max THEN v.n ELSE a.max]
\* Named columns of a map row: the grouping columns and the arguments but *.
Named(c, gs) == Len(gs) > 0 \/ \E j \in 1..Len(c.args) : c.args[j] # "*"
IsMap(o) == o.form \in {"map", "gomap"}
\* A row is rejected for a wrong number of columns (array), a missing column
\* (map) or a value that is not a number (all but COUNT).
Rejected(c, s, o) ==
  \/ o.extra # 0 /\ ~IsMap(o)
  \/ o.extra < 0 /\ IsMap(o) /\ Named(c, s.gs)
  \/ c.fn # "COUNT" /\ \E j \in 1..Len(o.vals) : o.vals[j].t = "bad"
\* In a map the asterisk has no value of its own.
Val(c, o, j) == IF IsMap(o) /\ c.args[j] = "*" THEN Null ELSE o.vals[j]
Slot(s, key) == IF \E g \in 1..Len(s.groups) : s.groups[g].key = key
                THEN CHOOSE g \in 1..Len(s.groups) : s.groups[g].key = key
                ELSE Len(s.groups) + 1
AddRow(c, s, o) ==
  LET g == Slot(s, o.key)
      old == IF g <= Len(s.groups) THEN s.groups[g].acc ELSE [j \in 1..Len(c.args) |-> Acc0]
      new == [key |-> o.key, acc |-> [j \in 1..Len(c.args) |-> Add(c, j, old[j], Val(c, o, j))]]
  IN IF g <= Len(s.groups) THEN [s EXCEPT !.groups[g] = new] ELSE [s EXCEPT !.groups = Append(@, new)]

\* Results as fractions p/q; AVG is left unreduced.
Frac(t, p, q) == [t |-> t, p |-> p, q |-> q]
Value(fn, a) ==
  CASE fn = "COUNT" -> Frac("num", a.cnt, 1)
    [] fn = "SUM"   -> Frac("num", a.sum, 1)
    [] a.cnt = 0    -> Frac("null", 0, 1)
    [] fn = "AVG"   -> Frac("num", a.sum, a.cnt)
    [] fn = "MIN"   -> Frac("num", a.min, 1)
    [] fn = "MAX"   -> Frac("num", a.max, 1)
Row(c, g) == [key |-> g.key, vals |-> [j \in 1..Len(c.args) |-> Value(c.fn, g.acc[j])]]
\* lexicographic order of keys of the same length
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
Rank(G, g) == Cardinality({h \in 1..Len(G) : Less(G[h].key, G[g].key)})
Sorted(G) == [r \in 1..Len(G) |-> G[CHOOSE g \in 1..Len(G) : Rank(G, g) = r - 1]]
Reverse(G) == [r \in 1..Len(G) |-> G[Len(G) + 1 - r]]
Ordered(G, order) == CASE order = "" -> G
                       [] order = "asc" -> Sorted(G)
                       [] order = "desc" -> Reverse(Sorted(G))
ColName(c, j) == c.fn \o "(" \o c.args[j] \o ")"
Columns(c, s) == s.gs \o [j \in 1..Len(c.args) |-> ColName(c, j)]
Result(c, s, order) ==
  LET G == IF s.gs = <<>> /\ s.groups = <<>> THEN <<[key |-> <<>>, acc |-> [j \in 1..Len(c.args) |-> Acc0]]>>
           ELSE Ordered(s.groups, order)
  IN [cols |-> Columns(c, s), rows |-> [r \in 1..Len(G) |-> Row(c, G[r])]]

NoResult == [cols |-> <<>>, rows |-> <<>>]
Out(ok, f) == [ok |-> ok, f |-> f]
Step(c, s, o) ==
  CASE o.op = "row" -> IF Rejected(c, s, o) THEN [s |-> s, r |-> Out(FALSE, NoResult)]
                       ELSE [s |-> AddRow(c, s, o), r |-> Out(TRUE, NoResult)]
    [] o.op = "reset" -> [s |-> Start(s.gs), r |-> Out(TRUE, NoResult)]
    [] o.op = "regroup" -> [s |-> Start(o.gs), r |-> Out(TRUE, NoResult)]
    [] o.op = "final" -> [s |-> s, r |-> Out(TRUE, Result(c, s, o.form))]

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
Op(op, form, key, vals, extra, gs) ==
  [op |-> op, form |-> form, key |-> key, vals |-> vals, extra |-> extra, gs |-> gs]
Vals == {Null, Bad} \cup {Num(n) : n \in Nums}
\* NULL keys have no place in an order
HasNullKey(s) == \E g \in 1..Len(s.groups) : \E j \in 1..Len(s.groups[g].key) : s.groups[g].key[j] = 0
Init == /\ cfg \in [fn : Fns, args : Args, gs : Groups]
        /\ \A j \in 1..Len(cfg.args) : cfg.args[j] = "*" => cfg.fn = "COUNT"
        /\ st = Start(cfg.gs) /\ hist = <<>> /\ done = FALSE
Do(o) == /\ st' = Step(cfg, st, o).s /\ hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
Good(extra, vals) == extra = 0 /\ \A j \in 1..Len(vals) : vals[j].t # "bad"
DoRow == \E form \in Forms, extra \in {-1, 0, 1} :
         \E key \in [1..Len(st.gs) -> 0..KeyMax], vals \in [1..Len(cfg.args) -> Vals] :
           Do(Op("row", form, key, vals, extra, <<>>))
Act == /\ Len(hist) < MaxOps
       /\ \/ DoRow
          \/ Do(Op("reset", "", <<>>, <<>>, 0, <<>>))
          \/ \E gs \in Groups : gs # <<>> /\ Do(Op("regroup", "", <<>>, <<>>, 0, gs))
          \/ \E f \in IF HasNullKey(st) THEN {""} ELSE {"", "asc", "desc"} : Do(Op("final", f, <<>>, <<>>, 0, <<>>))
\* Random histories draw one operation instead of enumerating them; most rows
\* are good rows.
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
RandomRow(d) ==
  LET k == R(1..10, d)
      vs == IF R(1..8, d) = 1 THEN Vals ELSE Vals \ {Bad}
  IN Op("row", R(Forms, d), R([1..Len(st.gs) -> IF k <= 3 THEN 0..KeyMax ELSE 1..KeyMax], d),
        R([1..Len(cfg.args) -> vs], d), IF R(1..8, d) = 1 THEN R({-1, 1}, d) ELSE 0, <<>>)
RandomOp(d) ==
  LET k == R(1..24, d)
  IN CASE k <= 19 -> RandomRow(d)
       [] k = 20 /\ d > MaxOps \div 2 -> Op("reset", "", <<>>, <<>>, 0, <<>>)
       [] k = 21 /\ d > MaxOps \div 2 /\ Groups # {<<>>} ->
            Op("regroup", "", <<>>, <<>>, 0, R(Groups \ {<<>>}, d))
       [] OTHER -> Op("final", IF HasNullKey(st) THEN "" ELSE R({"", "asc", "desc"}, d), <<>>, <<>>, 0, <<>>)
RandomAct == /\ Len(hist) < MaxOps
             /\ \E o \in {TLCEval(IF Len(hist) = MaxOps - 1 THEN Op("final", "", <<>>, <<>>, 0, <<>>) ELSE RandomOp(Len(hist)))} : Do(o)
Done == /\ Emit /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
        /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Next == Act \/ Done
Spec == Init /\ [][Next]_vars
RandomSpec == Init /\ [][RandomAct \/ Done]_vars

(***************************************************************************)
(* The result is decided by the rows accepted since the last reset.        *)
(***************************************************************************)
\* positions of the rows that count, given the grouping columns at the end
RECURSIVE LastReset(_, _)
LastReset(h, k) == IF k = 0 THEN 0 ELSE IF h[k].op \in {"reset", "regroup"} THEN k ELSE LastReset(h, k - 1)
Accepted == {k \in (LastReset(hist, Len(hist)) + 1)..Len(hist) : hist[k].op = "row" /\ ~Rejected(cfg, st, hist[k])}
RECURSIVE SumOver(_, _)
SumOver(S, j) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Val(cfg, hist[k], j).n + SumOver(S \ {k}, j)
HistoryDecides ==
  LET keys == {hist[k].key : k \in Accepted}
  IN /\ Len(st.groups) = Cardinality(keys)
     /\ {st.groups[g].key : g \in 1..Len(st.groups)} = keys
     /\ \A g \in 1..Len(st.groups), j \in 1..Len(cfg.args) :
          LET S == {k \in Accepted : hist[k].key = st.groups[g].key /\ Counts(cfg, j, Val(cfg, hist[k], j))}
              a == st.groups[g].acc[j]
          IN /\ a.cnt = Cardinality(S) /\ a.sum = SumOver(S, j)
             /\ S # {} => /\ \A k \in S : a.min <= Val(cfg, hist[k], j).n /\ a.max >= Val(cfg, hist[k], j).n
                          /\ \E k \in S : a.min = Val(cfg, hist[k], j).n
                          /\ \E k \in S : a.max = Val(cfg, hist[k], j).n
     /\ \A g, h \in 1..Len(st.groups) : g < h =>
          (CHOOSE k \in Accepted : hist[k].key = st.groups[g].key /\ \A m \in Accepted : hist[m].key = st.groups[g].key => k <= m)
          < (CHOOSE k \in Accepted : hist[k].key = st.groups[h].key /\ \A m \in Accepted : hist[m].key = st.groups[h].key => k <= m)
\* a requested order is a permutation of the groups, increasing by key
SortIsSorted ==
  LET S == Sorted(st.groups)
  IN /\ {S[g] : g \in 1..Len(S)} = {st.groups[g] : g \in 1..Len(st.groups)}
     /\ \A g \in 1..(Len(S) - 1) : Less(S[g].key, S[g + 1].key)
=============================================================================
