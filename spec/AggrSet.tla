------------------------------- MODULE AggrSet -------------------------------
(***************************************************************************)
(* Sets of aggregators over the same rows and the aggregated result set of *)
(* a SELECT (C11).  Every aggregator of the set is the machine of Aggr; a  *)
(* row gives it the columns it names.                                      *)
(*                                                                         *)
(* cfg is [kind, aggs, gs]: kind "set" (aggregators put together), "names" *)
(* (a set made for function names) or "sel" (a parsed SELECT); aggs a      *)
(* sequence of [fn, args]; gs the grouping columns.  The state is one Aggr *)
(* state per aggregator.  A row has a value for each of the columns Cols.  *)
(***************************************************************************)
EXTENDS Aggr

CONSTANTS MaxAggs, MaxSels
Cols == <<"x", "y", "z">>
Col(name) == CHOOSE j \in 1..Len(Cols) : Cols[j] = name

\* The part of a row an aggregator sees.
Seen(a, o) ==
  [op |-> "row", form |-> o.form, key |-> o.key, extra |-> o.extra, gs |-> <<>>,
   vals |-> [j \in 1..Len(a.args) |-> IF ~IsMap(o) THEN o.vals[1]
                                      ELSE IF a.args[j] = "*" THEN Null ELSE o.vals[Col(a.args[j])]]]
Rejects(c, s, o, i) == Rejected(c.aggs[i], s[i], Seen(c.aggs[i], o))
\* A row is taken by all aggregators or rejected by the first.
Clear(c, s, o) == Rejects(c, s, o, 1) \/ \A i \in 1..Len(c.aggs) : ~Rejects(c, s, o, i)
StartSet(c, gs) == [i \in 1..Len(c.aggs) |-> Start(gs)]
AddAll(c, s, o) == [i \in 1..Len(c.aggs) |-> AddRow(c.aggs[i], s[i], Seen(c.aggs[i], o))]

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
AggRes(c, s, i) == Result(c.aggs[i], s[i], "")
SetResult(c, s) ==
  LET gs == s[1].gs
      n == Len(c.aggs)
      res == [i \in 1..n |-> AggRes(c, s, i)]
  IN [cols |-> gs \o Flat([i \in 1..n |-> SubSeq(res[i].cols, Len(gs) + 1, Len(res[i].cols))]),
      rows |-> [r \in 1..Len(res[1].rows) |->
                 [key |-> res[1].rows[r].key, vals |-> Flat([i \in 1..n |-> res[i].rows[r].vals])]]]

(***************************************************************************)
(* The aggregated result set of SELECT sels FROM rows GROUP BY gs over the *)
(* window off/lim (0: no limit) of the rows.  A selector is [t, i]: the    *)
(* grouping column ("key") or the aggregator i ("aggr").                   *)
(***************************************************************************)
Window(rows, off, lim) ==
  LET rest == SubSeq(rows, off + 1, Len(rows))
  IN IF lim = 0 \/ lim >= Len(rest) THEN rest ELSE SubSeq(rest, 1, lim)
RECURSIVE Feed(_, _, _)
Feed(c, s, rows) == IF rows = <<>> THEN s ELSE Feed(c, AddAll(c, s, rows[1]), Tail(rows))
SelName(c, e) == IF e.t = "key" THEN c.gs[1] ELSE ColName(c.aggs[e.i], 1)
SelResult(c, o) ==
  LET rows == Window(o.rows, o.off, o.lim)
      res == SetResult(c, Feed(c, StartSet(c, c.gs), rows))
  IN [cols |-> [k \in 1..Len(o.sels) |-> SelName(c, o.sels[k])],
      rows |-> [r \in 1..Len(res.rows) |->
                 [key |-> <<>>,
                  vals |-> [k \in 1..Len(o.sels) |-> IF o.sels[k].t = "key" THEN Frac("key", res.rows[r].key[1], 1)
                                                     ELSE res.rows[r].vals[o.sels[k].i]]]]]
SelRejected(c, o) == \E k \in 1..Len(Window(o.rows, o.off, o.lim)), i \in 1..Len(c.aggs) :
                       Rejects(c, StartSet(c, c.gs), Window(o.rows, o.off, o.lim)[k], i)

SetStep(c, s, o) ==
  CASE o.op = "row" -> IF Rejects(c, s, o, 1) THEN [s |-> s, r |-> Out(FALSE, NoResult)]
                       ELSE [s |-> AddAll(c, s, o), r |-> Out(TRUE, NoResult)]
    [] o.op = "reset" -> [s |-> StartSet(c, s[1].gs), r |-> Out(TRUE, NoResult)]
    [] o.op = "regroup" -> [s |-> StartSet(c, o.gs), r |-> Out(TRUE, NoResult)]
    [] o.op = "final" -> [s |-> s, r |-> Out(TRUE, SetResult(c, s))]
    [] o.op = "select" -> [s |-> s, r |-> IF SelRejected(c, o) THEN Out(FALSE, NoResult) ELSE Out(TRUE, SelResult(c, o))]

(***************************************************************************)
(* Random histories.                                                       *)
(***************************************************************************)
SOp(op, form, key, vals, extra, gs) ==
  [op |-> op, form |-> form, key |-> key, vals |-> vals, extra |-> extra, gs |-> gs, rows |-> <<>>, off |-> 0, lim |-> 0, sels |-> <<>>]
AggOne == {[fn |-> f, args |-> <<a>>] : f \in Fns, a \in {"x", "y", "z"}} \cup {[fn |-> "COUNT", args |-> <<"*">>]}
AggTwo == {[fn |-> f, args |-> <<a, b>>] : f \in Fns, a \in {"x", "y"}, b \in {"y", "z"}}
Draw(S, d) == RandomElement(IF done = done THEN S ELSE {})
DrawCfg(d) ==
  LET kind == Draw({"set", "names", "sel"}, d)
      n == Draw(1..MaxAggs, d)
      x == Draw({<<"x">>, <<"y">>}, d)
      pool == AggOne \cup (IF kind = "set" /\ Draw(BOOLEAN, d) THEN AggTwo ELSE {})
      same == {a \in AggOne : a.args = x}
  IN [kind |-> kind, gs |-> Draw(IF kind = "sel" THEN {g \in Groups : Len(g) < 2} ELSE Groups, d),
      aggs |-> [i \in 1..n |-> Draw(IF kind = "names" THEN same ELSE pool, d + i)]]
SInit == cfg = [kind |-> "", aggs |-> <<>>, gs |-> <<>>] /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Setup == /\ cfg.kind = ""
         /\ \E c \in {TLCEval(DrawCfg(0))} : cfg' = c /\ st' = StartSet(c, c.gs)
         /\ UNCHANGED <<hist, done>>
OneArg == \A i \in 1..Len(cfg.aggs) : Len(cfg.aggs[i].args) = 1
RowForms == IF OneArg /\ cfg.kind # "sel" THEN Forms ELSE {"map", "gomap"}
DrawRow(d, extra) ==
  LET vs == IF Draw(1..6, d) = 1 THEN Vals ELSE Vals \ {Bad}
      k == Draw(1..10, d)
  IN SOp("row", Draw(RowForms, d), Draw([1..Len(st[1].gs) -> IF k <= 3 THEN 0..KeyMax ELSE 1..KeyMax], d),
         Draw([1..3 -> vs], d), extra, <<>>)
\* a missing column is one the first aggregator needs
MayMiss(o) == IsMap(o) => (st[1].gs # <<>> \/ cfg.aggs[1].args[1] # "*")
DrawSelect(d) ==
  LET n == Draw(0..MaxOps, d)
      vs == IF Draw(1..6, d) = 1 THEN Vals ELSE Vals \ {Bad}
      m == Len(cfg.aggs)
      keys == IF cfg.gs = <<>> THEN 0 ELSE Draw(0..(MaxSels - m), d)
      \* a random interleaving of the aggregators in order with key columns
      at == Draw(1..(m + 1), d)
      key == [k \in 1..keys |-> [t |-> "key", i |-> 1]]
      agg(a, b) == [k \in 1..(b - a + 1) |-> [t |-> "aggr", i |-> a + k - 1]]
  IN [SOp("select", "", <<>>, <<>>, 0, <<>>) EXCEPT
        !.rows = [r \in 1..n |-> SOp("row", "map", Draw([1..Len(cfg.gs) -> 0..KeyMax], d + r), Draw([1..3 -> vs], d + r), 0, <<>>)],
        !.off = IF Draw(1..3, d) = 1 THEN Draw(0..(n + 1), d) ELSE 0,
        !.lim = IF Draw(1..3, d) = 1 THEN Draw(0..(n + 1), d) ELSE 0,
        !.sels = agg(1, at - 1) \o key \o agg(at, m)]
DrawSetOp(d) ==
  LET k == Draw(1..24, d)
      row == DrawRow(d, IF Draw(1..8, d) = 1 THEN Draw({-1, 1}, d) ELSE 0)
  IN CASE cfg.kind = "sel" -> DrawSelect(d)
       [] k <= 19 -> IF MayMiss(row) /\ Clear(cfg, st, row) THEN row ELSE SOp("final", "", <<>>, <<>>, 0, <<>>)
       [] k = 20 /\ d > MaxOps \div 2 -> SOp("reset", "", <<>>, <<>>, 0, <<>>)
       [] k = 21 /\ d > MaxOps \div 2 /\ Groups # {<<>>} -> SOp("regroup", "", <<>>, <<>>, 0, Draw(Groups \ {<<>>}, d))
       [] OTHER -> SOp("final", "", <<>>, <<>>, 0, <<>>)
Length == IF cfg.kind = "sel" THEN 4 ELSE MaxOps
SDo(o) == /\ st' = SetStep(cfg, st, o).s /\ hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
SAct == /\ cfg.kind # "" /\ Len(hist) < Length
        /\ \E o \in {TLCEval(IF Len(hist) = Length - 1 /\ cfg.kind # "sel" THEN SOp("final", "", <<>>, <<>>, 0, <<>>)
                             ELSE DrawSetOp(Len(hist)))} : SDo(o)
SDone == /\ cfg.kind # "" /\ Emit /\ Len(hist) = Length /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
         /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
SSpec == SInit /\ [][Setup \/ SAct \/ SDone]_vars

(***************************************************************************)
(* All histories within small bounds: two aggregators over map rows.       *)
(***************************************************************************)
EInit == /\ \E gs \in Groups, a \in AggOne, b \in AggOne :
              /\ cfg = [kind |-> "set", aggs |-> <<a, b>>, gs |-> gs]
              /\ st = StartSet(cfg, gs)
         /\ hist = <<>> /\ done = FALSE
EAct == /\ Len(hist) < MaxOps
        /\ IF Len(hist) = MaxOps - 1 THEN SDo(SOp("final", "", <<>>, <<>>, 0, <<>>))
           ELSE \E key \in [1..Len(st[1].gs) -> 1..KeyMax], v \in {Null, Num(1)}, u \in {Null, Num(3)} :
                  SDo(SOp("row", "map", key, <<v, u, v>>, 0, <<>>))
EDone == /\ Emit /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
         /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
ESpec == EInit /\ [][EAct \/ EDone]_vars

(***************************************************************************)
(* The groups of the aggregators of a set are the same, in the same order, *)
(* so that the rows of the combined result belong together.                *)
(***************************************************************************)
SameGroups == \A i, j \in 1..Len(cfg.aggs) :
                /\ st[i].gs = st[j].gs /\ Len(st[i].groups) = Len(st[j].groups)
                /\ \A g \in 1..Len(st[i].groups) : st[i].groups[g].key = st[j].groups[g].key
=============================================================================
