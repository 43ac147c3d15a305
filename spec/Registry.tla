------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* The connection registry (C16).                                          *)
(*                                                                         *)
(* A universe U of connections is fixed: connection i has an ID, a UUID, a *)
(* kind ("real": one of the library; "fake": another implementation of the *)
(* interface, "self": one that removes itself from the registry when it is *)
(* closed) and the number of times closing it fails.  The state is         *)
(* [reg, calls]: the registered connections and how often the underlying   *)
(* connection of each one was asked to close.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Conns, Ids, Uuids, Kinds, Fails, Threads, PerThread, Emit
VARIABLES cfg, st, hist, done
vars == <<cfg, st, hist, done>>

Nobody == 0
\* the registered connection with an ID or UUID
ById(U, reg, id) == LET S == {i \in reg : U[i].id = id} IN IF S = {} THEN Nobody ELSE CHOOSE i \in S : TRUE
ByUuid(U, reg, u) == LET S == {i \in reg : U[i].u = u} IN IF S = {} THEN Nobody ELSE CHOOSE i \in S : TRUE
Out(err, set, one) == [err |-> err, set |-> set, one |-> one]
Ok == Out("ok", {}, Nobody)
Failed(e) == Out(e, {}, Nobody)
\* asking connection i to close
CloseCalls(U, calls, i) == IF U[i].kind = "real" /\ calls[i] > U[i].fails THEN calls[i] ELSE calls[i] + 1
CloseFails(U, calls, i) == calls[i] < U[i].fails
Closing(U, S) == {i \in S.reg : CloseFails(U, S.calls, i)}
Same(U, i, j) == U[i].u = U[j].u
Step(U, S, o) ==
  LET reg == S.reg
      keep(r) == [s |-> S, r |-> r]
      to(newreg) == [s |-> [S EXCEPT !.reg = newreg], r |-> Ok]
      without(i) == IF i = Nobody THEN reg ELSE reg \ {i}
  IN CASE o.op = "add" ->
            IF ByUuid(U, reg, U[o.a].u) # Nobody \/ ById(U, reg, U[o.a].id) # Nobody THEN keep(Failed("exist")) ELSE to(reg \cup {o.a})
       [] o.op = "update" ->
            LET old == ByUuid(U, reg, U[o.a].u)
                rest == reg \ {old}
            IN IF old = Nobody \/ U[old].id # U[o.a].id THEN keep(Failed("notexist"))
               ELSE IF ByUuid(U, rest, U[o.b].u) # Nobody \/ ById(U, rest, U[o.b].id) # Nobody THEN keep(Failed("exist"))
               ELSE to(rest \cup {o.b})
       [] o.op = "remove" -> to(without(ByUuid(U, reg, U[o.a].u)))
       [] o.op = "removeuuid" -> to(without(ByUuid(U, reg, o.a)))
       [] o.op = "removeuid" -> to(without(ById(U, reg, o.a)))
       [] o.op = "byid" -> keep(Out("ok", {}, ById(U, reg, o.a)))
       [] o.op = "byuuid" -> keep(Out("ok", {}, ByUuid(U, reg, o.a)))
       [] o.op = "conns" -> keep(Out("ok", reg, Nobody))
       [] o.op = "start" -> keep(Ok)
       [] OTHER -> \* close, stop
            LET bad == Closing(U, S)
            IN [s |-> [reg |-> bad, calls |-> [i \in 1..Len(U) |-> IF i \in reg THEN CloseCalls(U, S.calls, i) ELSE S.calls[i]]],
                r |-> Out(IF bad = {} THEN "ok" ELSE "close", bad, Nobody)]
Empty(U) == [reg |-> {}, calls |-> [i \in 1..Len(U) |-> 0]]

(***************************************************************************)
(* Behaviours.                                                             *)
(***************************************************************************)
Op(op, a, b) == [op |-> op, a |-> a, b |-> b]
OpsOf(U) == {Op("add", i, 0) : i \in 1..Len(U)} \cup {Op("update", i, j) : i \in 1..Len(U), j \in 1..Len(U)}
            \cup {Op("remove", i, 0) : i \in 1..Len(U)} \cup {Op("removeuid", i, 0) : i \in Ids}
            \cup {Op("removeuuid", u, 0) : u \in Uuids} \cup {Op("close", 0, 0), Op("stop", 0, 0)}
Looks == {Op("byid", i, 0) : i \in Ids} \cup {Op("byuuid", u, 0) : u \in Uuids} \cup {Op("conns", 0, 0), Op("start", 0, 0)}
NoCfg == [u |-> <<>>, set |-> FALSE, pre |-> <<>>, threads |-> <<>>]
Init == cfg = NoCfg /\ st = Empty(<<>>) /\ hist = <<>> /\ done = FALSE

\* Exhaustive: every operation in every reachable state of every universe.
Universes == [1..Conns -> [id : Ids, u : Uuids, kind : Kinds, fails : Fails]]
ESetup == /\ ~cfg.set /\ \E u \in Universes : cfg' = [NoCfg EXCEPT !.set = TRUE, !.u = u] /\ st' = Empty(u)
          /\ UNCHANGED <<hist, done>>
EAct == /\ cfg.set /\ Len(hist) < MaxOps
        /\ \E o \in OpsOf(cfg.u) :
             /\ st' = Step(cfg.u, st, o).s /\ hist' = Append(hist, o)
             /\ IF Emit THEN PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist'])) ELSE TRUE
        /\ UNCHANGED <<cfg, done>>
ESpec == Init /\ [][ESetup \/ EAct]_vars
StateView == <<cfg, st, IF hist = <<>> THEN 0 ELSE 1>>

\* Random long histories.
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
\* a real connection has a UUID of its own
RandConn(i, d) == LET k == R(Kinds, d)
                  IN [id |-> R(Ids, d), u |-> IF k = "real" THEN 100 + i ELSE R(Uuids, d + 1), kind |-> k, fails |-> IF R(1..3, d) = 1 THEN R(Fails, d) ELSE 0]
RandU(n, d) == [i \in 1..n |-> RandConn(i, d + i)]
RandOp(U, d) ==
  LET i == R(1..Len(U), d)
      j == R(1..Len(U), d + 1)
      k == R(1..40, d)
  IN CASE k <= 15 -> Op("add", i, 0)
       [] k <= 25 -> Op("update", i, j)
       [] k <= 28 -> Op("remove", i, 0)
       [] k <= 31 -> Op("removeuid", U[i].id, 0)
       [] k <= 34 -> Op("removeuuid", U[i].u, 0)
       [] k = 35 -> Op("close", 0, 0)
       [] k = 36 -> Op("stop", 0, 0)
       [] k = 37 -> Op("byid", R(Ids, d), 0)
       [] k = 38 -> Op("byuuid", U[i].u, 0)
       [] OTHER -> Op("conns", 0, 0)
Setup == /\ ~cfg.set /\ \E u \in {TLCEval(RandU(Conns, 0))} : cfg' = [NoCfg EXCEPT !.set = TRUE, !.u = u] /\ st' = Empty(u)
         /\ UNCHANGED <<hist, done>>
Act == /\ cfg.set /\ Len(hist) < MaxOps
       /\ \E o \in {TLCEval(RandOp(cfg.u, Len(hist)))} : st' = Step(cfg.u, st, o).s /\ hist' = Append(hist, o)
       /\ UNCHANGED <<cfg, done>>
Done == /\ cfg.set /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
        /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Setup \/ Act \/ Done]_vars

\* Concurrent histories: some connections are there before the threads start.
CSetup == /\ ~cfg.set
          /\ \E u \in {TLCEval(RandU(Conns, 0))} :
             \E pre \in {TLCEval([k \in 1..R(0..3, 9) |-> Op("add", R(1..Len(u), k), 0)])} :
             \E th \in {TLCEval([t \in 1..Threads |-> [k \in 1..PerThread |-> RandOp(u, 31 * t + k)]])} :
               cfg' = [u |-> u, set |-> TRUE, pre |-> pre, threads |-> th] /\ st' = Empty(u)
          /\ UNCHANGED <<hist, done>>
CDone == /\ cfg.set /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, st, hist>>
         /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> <<>>]))
CSpec == Init /\ [][CSetup \/ CDone]_vars

(***************************************************************************)
(* The two indexes are one-to-one; a failed operation changes nothing; only*)
(* add and update register and they register one connection.               *)
(***************************************************************************)
Unique == \A i, j \in st.reg : i # j => cfg.u[i].id # cfg.u[j].id /\ cfg.u[i].u # cfg.u[j].u
Found == \A i \in st.reg : ById(cfg.u, st.reg, cfg.u[i].id) = i /\ ByUuid(cfg.u, st.reg, cfg.u[i].u) = i
LastOp == hist'[Len(hist')]
FailureChangesNothing ==
  [][Len(hist') = Len(hist) + 1 =>
       LET r == Step(cfg.u, st, LastOp).r
       IN /\ (r.err \in {"exist", "notexist"} => st' = st)
          /\ st'.reg \subseteq st.reg \cup (IF LastOp.op = "add" THEN {LastOp.a} ELSE IF LastOp.op = "update" THEN {LastOp.b} ELSE {})]_vars
OnlyCloseCloses == [][Len(hist') = Len(hist) + 1 /\ LastOp.op \notin {"close", "stop"} => st'.calls = st.calls]_vars
=============================================================================
