------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Connections and their session state (C17).                              *)
(*                                                                         *)
(* A connection is [user, db, schemas, span, calls, fails, starts]: the    *)
(* last user, database and span context set (numbers that stand for        *)
(* values), the schemas added since the last database change, how often    *)
(* the underlying connection was asked to close, how often it refuses, and *)
(* how many spans were started (and not finished) on each span context.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxConns, Vals, Spans, Threads, PerThread, Emit
VARIABLES cfg, st, hist, done
vars == <<cfg, st, hist, done>>

Has(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE AddAll(_, _)
AddAll(s, l) == IF l = <<>> THEN s ELSE AddAll(IF Has(s, Head(l)) THEN s ELSE Append(s, Head(l)), Tail(l))
Out(err, v, l) == [err |-> err, v |-> v, l |-> l]
Ok == Out("ok", 0, <<>>)
IsClosed(C) == C.calls > C.fails
\* one operation on one connection
Step1(C, o) ==
  CASE o.op = "setuser" -> [s |-> [C EXCEPT !.user = o.v], r |-> Ok]
    [] o.op = "setdb" -> [s |-> [C EXCEPT !.db = o.v, !.schemas = <<>>], r |-> Ok]
    [] o.op = "setschemas" -> [s |-> [C EXCEPT !.schemas = AddAll(@, o.l)], r |-> Ok]
    [] o.op = "setspan" -> [s |-> [C EXCEPT !.span = o.v], r |-> Ok]
    [] o.op = "user" -> [s |-> C, r |-> Out("ok", C.user, <<>>)]
    [] o.op = "db" -> [s |-> C, r |-> Out("ok", C.db, <<>>)]
    [] o.op = "schemas" -> [s |-> C, r |-> Out("ok", 0, C.schemas)]
    [] o.op = "span" -> [s |-> C, r |-> Out("ok", C.span, <<>>)]
    [] o.op = "start" -> [s |-> [C EXCEPT !.starts = [k \in DOMAIN @ |-> IF k = C.span THEN @[k] + 1 ELSE @[k]]], r |-> Ok]
    [] o.op = "finish" -> [s |-> [C EXCEPT !.starts = [k \in DOMAIN @ |-> IF k = C.span THEN @[k] - 1 ELSE @[k]]], r |-> Ok]
    [] OTHER -> \* close
         IF IsClosed(C) THEN [s |-> C, r |-> Ok]
         ELSE [s |-> [C EXCEPT !.calls = @ + 1], r |-> IF C.calls < C.fails THEN Out("close", 0, <<>>) ELSE Ok]
Step(S, o) == LET e == Step1(S[o.c], o) IN [s |-> [S EXCEPT ![o.c] = e.s], r |-> e.r]
\* a new connection: the options that are given (-1: not given)
Start1(c) == [user |-> IF c.user < 0 THEN 0 ELSE c.user, db |-> IF c.db < 0 THEN 0 ELSE c.db,
              schemas |-> AddAll(<<>>, c.schemas), span |-> IF c.span < 0 THEN 0 ELSE c.span,
              calls |-> 0, fails |-> c.fails, starts |-> [k \in Spans |-> 0]]
StartAll(c) == [i \in 1..Len(c.conns) |-> Start1(c.conns[i])]

R(S, d) == RandomElement(IF done = done THEN S ELSE {})
RandSchemas(n, d) == [k \in 1..n |-> R(Vals \ {0}, d + k)]
RandConn(d) == [user |-> R(Vals \cup {-1}, d), db |-> R(Vals \cup {-1}, d), schemas |-> IF R(1..2, d) = 1 THEN <<>> ELSE RandSchemas(R(1..3, d), d),
                span |-> R(Spans \cup {-1}, d), fails |-> IF R(1..2, d) = 1 THEN 0 ELSE R(0..3, d), id |-> R(0..5, d), given |-> R(BOOLEAN, d)]
\* the connections may start with one and the same list of schemas
RandCfg(d) ==
  LET n == R(1..MaxConns, d)
      one == RandConn(d + 50)
  IN [conns |-> [i \in 1..n |-> IF R(1..2, d + i) = 1 THEN [RandConn(d + i) EXCEPT !.schemas = one.schemas] ELSE RandConn(d + i)],
      set |-> TRUE, threads |-> <<>>]
Op(op, c, v, l) == [op |-> op, c |-> c, v |-> v, l |-> l]
RandOp(n, d) ==
  LET c == R(1..n, d)
      k == R(1..26, d)
  IN CASE k <= 3 -> Op("setuser", c, R(Vals, d), <<>>)
       [] k <= 5 -> Op("setdb", c, R(Vals, d), <<>>)
       [] k <= 12 -> Op("setschemas", c, 0, RandSchemas(R(0..3, d), d))
       [] k <= 14 -> Op("setspan", c, R(Spans, d), <<>>)
       [] k = 15 -> Op("user", c, 0, <<>>)
       [] k = 16 -> Op("db", c, 0, <<>>)
       [] k <= 18 -> Op("schemas", c, 0, <<>>)
       [] k = 19 -> Op("span", c, 0, <<>>)
       [] k <= 21 -> Op("start", c, 0, <<>>)
       [] k = 22 -> Op("finish", c, 0, <<>>)
       [] OTHER -> Op("close", c, 0, <<>>)
NoCfg == [conns |-> <<>>, set |-> FALSE, threads |-> <<>>]
Init == cfg = NoCfg /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Setup == /\ ~cfg.set /\ \E c \in {TLCEval(RandCfg(0))} : cfg' = c /\ st' = StartAll(c)
         /\ UNCHANGED <<hist, done>>
Act == /\ cfg.set /\ Len(hist) < MaxOps
       /\ \E o \in {TLCEval(RandOp(Len(cfg.conns), Len(hist)))} : st' = Step(st, o).s /\ hist' = Append(hist, o)
       /\ UNCHANGED <<cfg, done>>
Done == /\ cfg.set /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
        /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Setup \/ Act \/ Done]_vars

\* Exhaustive over one connection: every operation in every state within MaxOps.
ECfgs == {[conns |-> <<[user |-> u, db |-> -1, schemas |-> s, span |-> -1, fails |-> f, id |-> 1, given |-> TRUE]>>, set |-> TRUE, threads |-> <<>>] :
            u \in {-1, 1}, s \in {<<>>, <<1>>, <<1, 2>>}, f \in 0..2}
EOps == {Op("setuser", 1, v, <<>>) : v \in Vals} \cup {Op("setdb", 1, v, <<>>) : v \in Vals} \cup {Op("setspan", 1, v, <<>>) : v \in Spans}
        \cup {Op("setschemas", 1, 0, <<a>>) : a \in Vals \ {0}} \cup {Op("setschemas", 1, 0, <<a, b>>) : a, b \in Vals \ {0}}
        \cup {Op("close", 1, 0, <<>>), Op("start", 1, 0, <<>>)}
ESetup == /\ ~cfg.set /\ \E c \in ECfgs : cfg' = c /\ st' = StartAll(c) /\ UNCHANGED <<hist, done>>
EAct == /\ cfg.set /\ Len(hist) < MaxOps
        /\ \E o \in EOps : /\ st' = Step(st, o).s /\ hist' = Append(hist, o)
                           /\ IF Emit THEN PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist'])) ELSE TRUE
        /\ UNCHANGED <<cfg, done>>
ESpec == Init /\ [][ESetup \/ EAct]_vars
StateView == <<cfg, st, IF hist = <<>> THEN 0 ELSE 1>>

\* Concurrent histories on one connection.
COp(c, d) == [RandOp(1, d) EXCEPT !.c = c]
CSetup == /\ ~cfg.set
          /\ \E c \in {TLCEval(RandConn(0))} :
             \E th \in {TLCEval([t \in 1..Threads |-> [k \in 1..PerThread |-> COp(1, 31 * t + k)]])} :
               cfg' = [conns |-> <<c>>, set |-> TRUE, threads |-> th] /\ st' = StartAll(cfg')
          /\ UNCHANGED <<hist, done>>
CDone == /\ cfg.set /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
         /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> <<>>]))
CSpec == Init /\ [][CSetup \/ CDone]_vars

(***************************************************************************)
(* Once each, and once closed there are no more closes.                    *)
(***************************************************************************)
OnceEach == \A c \in 1..Len(st) : \A i, j \in 1..Len(st[c].schemas) : i # j => st[c].schemas[i] # st[c].schemas[j]
ClosesOnce == \A c \in 1..Len(st) : st[c].calls <= st[c].fails + 1
KeepsOrder == [][Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].op # "setdb" =>
                   \A c \in 1..Len(st) : Len(st[c].schemas) <= Len(st'[c].schemas) /\ SubSeq(st'[c].schemas, 1, Len(st[c].schemas)) = st[c].schemas]_vars
=============================================================================
