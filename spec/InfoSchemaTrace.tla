--------------------------- MODULE InfoSchemaTrace ---------------------------
(* Conformance of recorded information-schema histories with InfoSchema. *)
EXTENDS InfoSchema, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
First(r) == r.panic
StartOf(r) == Start
StepOf(r, s, o) == Step(s, o)
\* r.at positions of an unsuccessful operation and its contents are not reported
Compare(r, want, got) ==
  IF got.ok # want.ok THEN (IF want.ok THEN "failed" ELSE "was accepted")
  ELSE IF ~want.ok THEN ""
  ELSE IF got.db # want.db THEN "database " \o got.db \o " instead of " \o want.db
  ELSE IF got.ts # want.ts THEN "tables " \o ToString(got.ts) \o " instead of " \o ToString(want.ts)
  ELSE IF got.cs # want.cs \/ got.join # want.join THEN "the statement selects " \o ToString(got.cs) \o " " \o got.join \o " instead of " \o ToString(want.cs) \o " " \o want.join
  ELSE IF got.rs # want.rs THEN "columns " \o ToString(got.rs) \o " instead of " \o ToString(want.rs)
  ELSE IF got.at # want.at THEN "found " \o ToString(got.at) \o " instead of " \o ToString(want.at)
  ELSE ""
Last(r, s) == ""
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ st = Start /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
