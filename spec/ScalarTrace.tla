----------------------------- MODULE ScalarTrace -----------------------------
(* Conformance of recorded function calls with Scalar. *)
EXTENDS Scalar, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
HasClose(n) == \E j \in 1..Len(n) : SubSeq(n, j, j) \in {"(", ")"}
First(r) ==
  IF r.panic # "" THEN r.panic
  ELSE IF r.found # Known(r.cfg.name) THEN (IF r.found THEN "another name resolves: " ELSE "name not found: ") \o r.cfg.name
  ELSE IF r.aggr # KnownAggr(r.cfg.name) THEN (IF r.aggr THEN "another name resolves to an aggregator: " ELSE "aggregator not found: ") \o r.cfg.name
  ELSE IF ~HasClose(r.cfg.name) /\ r.reg # (Known(r.cfg.name) \/ KnownAggr(r.cfg.name)) THEN "registration of " \o r.cfg.name
  ELSE IF r.found /\ r.canon # Base(r.cfg.name) THEN "resolves to " \o r.canon
  ELSE IF r.found /\ r.typ # TypeOf(Base(r.cfg.name)) THEN "type " \o r.typ
  ELSE ""
StartOf(r) == <<>>
StepOf(r, s, o) == [s |-> s, r |-> IF o.how = "identity" THEN Yes([NullV EXCEPT !.t = "equal"]) ELSE Call(FnOf(r.cfg), o.args)]
Compare(r, want, got) ==
  IF want.v.t = "free" THEN ""
  ELSE IF got.ok # want.ok THEN (IF want.ok THEN "failed" ELSE "returned a value " \o ToString(got.v))
  ELSE IF ~want.ok THEN ""
  ELSE IF CASE want.v.t = "num" -> got.v.t = "num" /\ got.v.p * want.v.q = want.v.p * got.v.q
            [] want.v.t = "str" -> got.v.t = "str" /\ got.v.s = want.v.s
            [] want.v.t = "anynum" -> got.v.t \in {"num", "real"}
            [] want.v.t = "unit" -> got.v.t \in {"num", "real"} /\ got.milli >= 0 /\ got.milli <= 1000
            [] want.v.t = "pi" -> got.v.t \in {"num", "real"} /\ got.milli = 3141
            [] want.v.t = "time" -> got.v.t = "now"
            [] want.v.t = "equal" -> got.v.t = "equal"
       THEN "" ELSE "expected " \o ToString(want.v) \o " got " \o ToString(got)
Last(r, s) == ""
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ cfg = Cfg("", 0, 0) /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
