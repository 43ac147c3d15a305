----------------------------- MODULE RegistryTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded registry histories with Registry.  A sequential *)
(* history is followed operation by operation.  A concurrent one is a set  *)
(* of events [op, res, call, ret] (call and ret are points of time): there *)
(* must be an order of the operations that respects time and explains all  *)
(* results and the final state.  Closing the registry is not atomic: it    *)
(* takes the registered connections and then removes them one by one.      *)
(***************************************************************************)
EXTENDS Registry, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in 1..Len(s)}
SameOut(o, got, want) == /\ got.err = want.err /\ got.one = want.one
                         /\ Range(got.set) = want.set /\ Len(got.set) = Cardinality(want.set)
\* the state seen through the interface
SameState(U, S, got) ==
  /\ Range(got.conns) = S.reg /\ Len(got.conns) = Cardinality(S.reg)
  /\ \A i \in 1..Len(U) : got.byid[i] = ById(U, S.reg, U[i].id) /\ got.byuuid[i] = ByUuid(U, S.reg, U[i].u)
  /\ got.calls = S.calls
First(r) == r.panic
StartOf(r) == Empty(r.cfg.u)
StepOf(r, s, o) == LET e == Step(r.cfg.u, s, o) IN [s |-> e.s, r |-> e]
Compare(r, want, got) ==
  IF ~SameOut(0, got.out, want.r) THEN "returned " \o ToString(got.out) \o " instead of " \o ToString(want.r)
  ELSE IF ~SameState(r.cfg.u, want.s, got.state) THEN "the registry shows " \o ToString(got.state) \o " instead of " \o ToString(want.s)
  ELSE ""

(***************************************************************************)
(* Linearization.  E: the events; rem: those not finished; pend[k] for a   *)
(* closing event: whom it has not removed yet ({-1}: not started).         *)
(***************************************************************************)
Closes(o) == o.op \in {"close", "stop"}
\* the configurations <<reg, rem, pend>> one step after a configuration
Succ(U, E, c) ==
  LET S == c[1]
      rem == c[2]
      pend == c[3]
      now == {k \in rem : \A j \in rem : E[k].call < E[j].ret}
      plain == {k \in now : ~Closes(E[k].op)}
      St(reg) == [reg |-> reg, calls |-> [i \in 1..Len(U) |-> 0]]
      after(k) == Step(U, St(S), E[k].op)
  IN UNION {
       {<<after(k).s.reg, rem \ {k}, pend>> : k \in {k \in plain : SameOut(0, E[k].out, after(k).r)}},
       {<<S, rem, [pend EXCEPT ![k] = S]>> : k \in {k \in now \ plain : pend[k] = {-1}}},
       {<<S, rem \ {k}, pend>> : k \in {k \in now \ plain : pend[k] = {}}},
       UNION {{<<S \ {ByUuid(U, S, U[i].u)}, rem, [pend EXCEPT ![k] = @ \ {i}]>> : i \in pend[k]} : k \in {k \in now \ plain : pend[k] # {-1}}}}
RECURSIVE Lin(_, _, _, _, _)
Lin(U, E, front, seen, fin) ==
  LET good == {c \in front : c[2] = {} /\ Range(fin.conns) = c[1] /\ Len(fin.conns) = Cardinality(c[1])
                             /\ \A i \in 1..Len(U) : fin.byid[i] = ById(U, c[1], U[i].id) /\ fin.byuuid[i] = ByUuid(U, c[1], U[i].u)}
      next == UNION {Succ(U, E, c) : c \in front} \ seen
  IN IF good # {} THEN TRUE ELSE IF next = {} THEN FALSE ELSE Lin(U, E, next, seen \cup next, fin)
RECURSIVE Pre(_, _, _)
Pre(U, S, ops) == IF ops = <<>> THEN S ELSE Pre(U, Step(U, S, Head(ops)).s, Tail(ops))
Explained(r, run) ==
  LET E == run.events
      start == <<Pre(r.cfg.u, Empty(r.cfg.u), r.cfg.pre).reg, 1..Len(E), [k \in 1..Len(E) |-> {-1}]>>
  IN Lin(r.cfg.u, E, {start}, {start}, run.final)
Last(r, s) ==
  LET bad == {i \in 1..Len(r.runs) : ~Explained(r, r.runs[i])}
  IN IF bad = {} THEN "" ELSE "no order of the operations explains " \o ToString(r.runs[CHOOSE i \in bad : TRUE])
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ cfg = NoCfg /\ st = Empty(<<>>) /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
