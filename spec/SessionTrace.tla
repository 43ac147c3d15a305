----------------------------- MODULE SessionTrace -----------------------------
(* Conformance of recorded connection histories with Session. *)
EXTENDS Session, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SameConn(C, got) == /\ got.user = C.user /\ got.db = C.db /\ got.schemas = C.schemas /\ got.span = C.span /\ got.calls = C.calls
                    /\ got.fixed /\ \A k \in Spans : got.starts[k + 1] = C.starts[k]
SameOut(got, want) == got.err = want.err /\ got.v = want.v /\ got.l = want.l
First(r) == r.panic
StartOf(r) == StartAll(r.cfg)
StepOf(r, s, o) == LET e == Step(s, o) IN [s |-> e.s, r |-> e]
Compare(r, want, got) ==
  IF ~SameOut(got.out, want.r) THEN "returned " \o ToString(got.out) \o " instead of " \o ToString(want.r)
  ELSE IF \E c \in 1..Len(want.s) : ~SameConn(want.s[c], got.all[c]) THEN "the connections show " \o ToString(got.all) \o " instead of " \o ToString(want.s)
  ELSE ""

(***************************************************************************)
(* Concurrent runs: some order of the events that respects time explains   *)
(* every result and the final state.                                       *)
(***************************************************************************)
Succ(E, c) ==
  LET now == {k \in c[2] : \A j \in c[2] : E[k].call < E[j].ret}
      after(k) == Step1(c[1], E[k].op)
  IN {<<after(k).s, c[2] \ {k}>> : k \in {k \in now : SameOut(E[k].out, after(k).r)}}
RECURSIVE Lin(_, _, _, _)
Lin(E, front, n, fin) ==
  IF n = 0 THEN \E c \in front : SameConn(c[1], fin)
  ELSE LET next == UNION {Succ(E, c) : c \in front} IN next # {} /\ Lin(E, next, n - 1, fin)
Explained(r, run) == Lin(run.events, {<<Start1(r.cfg.conns[1]), 1..Len(run.events)>>}, Len(run.events), run.final)
Last(r, s) ==
  LET bad == {i \in 1..Len(r.runs) : ~Explained(r, r.runs[i])}
  IN IF bad = {} THEN "" ELSE "no order of the operations explains " \o ToString(r.runs[CHOOSE i \in bad : TRUE])
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ cfg = NoCfg /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
