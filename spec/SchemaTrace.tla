------------------------------ MODULE SchemaTrace ------------------------------
(* Conformance of recorded schema histories with Schema. *)
EXTENDS Schema, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
First(r) == r.panic
StartOf(r) == <<[cols |-> <<>>, idxs |-> <<>>]>>
StepOf(r, s, o) == Step(s, o)
Compare(r, want, got) ==
  IF got.ok # want.ok THEN (IF want.ok THEN "failed" ELSE "was accepted")
  ELSE IF got.at # want.at THEN "found entry " \o ToString(got.at) \o " instead of " \o ToString(want.at)
  ELSE IF got.all # want.all THEN "the schemas are " \o ToString(got.all) \o " instead of " \o ToString(want.all)
  ELSE IF got.later # want.all THEN "the lists obtained then changed later to " \o ToString(got.later)
  ELSE ""
Last(r, s) == ""
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ cfg = "" /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
