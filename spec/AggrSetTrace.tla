----------------------------- MODULE AggrSetTrace -----------------------------
(* Conformance of recorded histories of aggregator sets with AggrSet. *)
EXTENDS AggrSet, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SameVal(got, want) == got.t = want.t /\ (want.t \in {"num", "key"} => got.q > 0 /\ got.p * want.q = want.p * got.q)
SameResult(got, want) ==
  /\ got.cols = want.cols /\ Len(got.rows) = Len(want.rows)
  /\ \A r \in 1..Len(want.rows) :
       /\ got.rows[r].key = want.rows[r].key /\ Len(got.rows[r].vals) = Len(want.rows[r].vals)
       /\ \A j \in 1..Len(want.rows[r].vals) : SameVal(got.rows[r].vals[j], want.rows[r].vals[j])
First(r) == r.panic
StartOf(r) == StartSet(r.cfg, r.cfg.gs)
StepOf(r, s, o) == SetStep(r.cfg, s, o)
Compare(r, want, got) ==
  IF got.ok # want.ok THEN (IF want.ok THEN "failed" ELSE "was accepted")
  ELSE IF ~SameResult(got.f, want.f) THEN "expected " \o ToString(want.f) \o " got " \o ToString(got.f)
  ELSE IF ~SameResult(got.later, want.f) THEN "result changed later to " \o ToString(got.later)
  ELSE ""
Last(r, s) == ""
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ cfg = [kind |-> ""] /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
