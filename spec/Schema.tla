-------------------------------- MODULE Schema --------------------------------
(***************************************************************************)
(* Table schemas under added and dropped columns and indexes (C14), by the *)
(* schema's own methods or by parsed ALTER TABLE, CREATE INDEX and DROP    *)
(* INDEX statements.                                                       *)
(*                                                                         *)
(* The state is a sequence of schemas [cols, idxs]; a schema may be made   *)
(* from the column and index lists of another one.  A column is [n, t],    *)
(* name and type; an index [n, cs], name and column names.  Names which    *)
(* differ in letter case only denote the same column.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxSchemas, Names, Types, Hows, Emit
VARIABLES cfg, st, hist, done
vars == <<cfg, st, hist, done>>

\* The names of the specification are a base name and a letter case.
Name(b, c) == [b |-> b, c |-> c]
AllNames == {Name(b, c) : b \in Names, c \in 0..2}
Same(a, b) == a.b = b.b
Hits(list, n) == {k \in 1..Len(list) : Same(list[k].n, n)}
FirstOf(list, n) == CHOOSE k \in Hits(list, n) : \A j \in Hits(list, n) : k <= j
Without(list, k) == SubSeq(list, 1, k - 1) \o SubSeq(list, k + 1, Len(list))

Out(ok, at, all) == [ok |-> ok, at |-> at, all |-> all]
\* o.s is the schema the operation is about
Step(S, o) ==
  LET me == S[o.s]
      Ok(S1, at) == [s |-> S1, r |-> Out(TRUE, at, S1)]
      No == [s |-> S, r |-> Out(FALSE, 0, S)]
      Drop(list, n) == Without(list, FirstOf(list, n))
  IN CASE o.op = "addcol" -> Ok([S EXCEPT ![o.s].cols = Append(@, [n |-> o.n, t |-> o.t])], 0)
       [] o.op = "addidx" -> Ok([S EXCEPT ![o.s].idxs = Append(@, [n |-> o.n, cs |-> o.cs])], 0)
       [] o.op = "dropcol" -> IF Hits(me.cols, o.n) = {} THEN No ELSE Ok([S EXCEPT ![o.s].cols = Drop(@, o.n)], 0)
       [] o.op = "dropidx" -> IF Hits(me.idxs, o.n) = {} THEN No ELSE Ok([S EXCEPT ![o.s].idxs = Drop(@, o.n)], 0)
       [] o.op = "lookcol" -> IF Hits(me.cols, o.n) = {} THEN No ELSE Ok(S, FirstOf(me.cols, o.n))
       [] o.op = "lookidx" -> IF Hits(me.idxs, o.n) = {} THEN No ELSE Ok(S, FirstOf(me.idxs, o.n))
       [] o.op = "fork" -> Ok(Append(S, me), 0)
       [] o.op = "list" -> Ok(S, 0)

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
Op(op, s, how, n, t, cs) == [op |-> op, s |-> s, how |-> how, n |-> n, t |-> t, cs |-> cs]
NoName == Name("", 0)
\* ways of doing an operation: "direct" (method), "alter" (statement made by hand), "parsed" (parsed text)
Acts(S) ==
  LET on == 1..Len(S)
  IN {Op("addcol", s, h, n, t, <<>>) : s \in on, h \in Hows, n \in AllNames, t \in Types}
     \cup {Op("addidx", s, h, n, "", <<c>>) : s \in on, h \in Hows, n \in AllNames, c \in AllNames}
     \cup {Op(op, s, h, n, "", <<>>) : op \in {"dropcol", "dropidx"}, s \in on, h \in Hows, n \in AllNames}
     \cup {Op(op, s, "direct", n, "", <<>>) : op \in {"lookcol", "lookidx"}, s \in on, n \in AllNames}
     \cup (IF Len(S) < MaxSchemas THEN {Op("fork", s, "direct", NoName, "", <<>>) : s \in on} ELSE {})
Init == /\ cfg \in {"direct", "parsed"}
        /\ st = <<[cols |-> <<>>, idxs |-> <<>>]>> /\ hist = <<>> /\ done = FALSE
Do(o) == st' = Step(st, o).s /\ hist' = Append(hist, o) /\ UNCHANGED <<cfg, done>>
Act == Len(hist) < MaxOps /\ \E o \in Acts(st) : Do(o)
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
RandName(list, d) == IF list # <<>> /\ R(1..3, d) > 1
                     THEN [list[R(1..Len(list), d)].n EXCEPT !.c = R(0..2, d)] ELSE R(AllNames, d)
RandOp(d) ==
  LET s == R(1..Len(st), d)
      h == R(Hows, d)
      k == R(1..20, d)
      me == st[s]
  IN CASE k <= 6 -> Op("addcol", s, h, RandName(<<>>, d), R(Types, d), <<>>)
       [] k <= 9 -> Op("addidx", s, h, RandName(<<>>, d), "", [j \in 1..R(1..3, d) |-> RandName(me.cols, d + j)])
       [] k <= 12 -> Op("dropcol", s, h, RandName(me.cols, d), "", <<>>)
       [] k <= 14 -> Op("dropidx", s, h, RandName(me.idxs, d), "", <<>>)
       [] k <= 16 -> Op("lookcol", s, "direct", RandName(me.cols, d), "", <<>>)
       [] k = 17 -> Op("lookidx", s, "direct", RandName(me.idxs, d), "", <<>>)
       [] Len(st) < MaxSchemas -> Op("fork", s, "direct", NoName, "", <<>>)
       [] OTHER -> Op("list", s, "direct", NoName, "", <<>>)
RandomAct == Len(hist) < MaxOps /\ \E o \in {TLCEval(RandOp(Len(hist)))} : Do(o)
Done == /\ Emit /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
        /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Act \/ Done]_vars
RandomSpec == Init /\ [][RandomAct \/ Done]_vars

(***************************************************************************)
(* The columns of a schema are those added in its history (its own and, up *)
(* to the fork, that of the schema it was made from) and not dropped.      *)
(***************************************************************************)
\* the number of columns with a name: additions minus successful drops
RECURSIVE Count(_, _, _, _, _)
Count(h, k, s, n, kind) ==
  IF k = 0 THEN 0
  ELSE LET c == Count(h, k - 1, s, n, kind)
       IN IF h[k].s # s \/ ~Same(h[k].n, n) THEN c
          ELSE IF h[k].op = "add" \o kind THEN c + 1
          ELSE IF h[k].op = "drop" \o kind /\ c > 0 THEN c - 1 ELSE c
Held == MaxSchemas = 1 =>
  \A b \in Names :
    /\ Cardinality(Hits(st[1].cols, Name(b, 0))) = Count(hist, Len(hist), 1, Name(b, 0), "col")
    /\ Cardinality(Hits(st[1].idxs, Name(b, 0))) = Count(hist, Len(hist), 1, Name(b, 0), "idx")
\* an operation changes one schema at most, and one list of it by one entry
OneChange == [][\A s \in 1..Len(st) :
                  /\ Len(st'[s].cols) - Len(st[s].cols) \in {-1, 0, 1}
                  /\ (st'[s] # st[s] => \A r \in 1..Len(st) : r # s => st'[r] = st[r])
                  /\ (st'[s].cols # st[s].cols => st'[s].idxs = st[s].idxs)]_st
=============================================================================
