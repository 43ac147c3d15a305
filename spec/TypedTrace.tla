------------------------------ MODULE TypedTrace ------------------------------
(* Conformance of recorded column list histories with Typed. *)
EXTENDS Typed, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* digits of a number that a float type holds exactly
Sig(n) == Len(n.ip) + Len(n.fp)
Exact(t, n) == t \notin {"float32", "float64"} \/ Sig(n) <= (IF t = "float32" THEN 6 ELSE 15)
SameNum(t, got, want) == IF ~Exact(t, want.num) THEN got.near
                         ELSE got.num.ip = want.num.ip /\ got.num.fp = want.num.fp
                              /\ (Sig(want.num) > 0 => got.num.neg = want.num.neg)
SameVal(got, want) == /\ got.t = want.t
                      /\ CASE want.t = "lit" -> \E i \in 1..Len(got.ks) : got.ks[i] = want.k
                           [] want.t = "bool" -> got.b = want.b
                           [] OTHER -> SameNum(want.t, got, want)
SameCol(got, want) == got.n = want.n /\ got.ty = want.ty /\ SameVal(got.v, want.v)
SameList(got, want) == want.dead \/ (Len(got) = Len(want.cols) /\ \A j \in 1..Len(got) : SameCol(got[j], want.cols[j]))
SameAll(got, want) == Len(got) = Len(want) /\ \A s \in 1..Len(got) : SameList(got[s], want[s])
First(r) == r.panic
StartOf(r) == StartList(r.cfg)
StepOf(r, s, o) == Step(r.cfg, s, o)
Compare(r, want, got) ==
  IF want.how # "any" /\ got.ok # (want.how = "ok") THEN (IF got.ok THEN "was accepted" ELSE "failed")
  ELSE IF ~SameAll(got.all, want.all) THEN "the lists are " \o ToString(got.all) \o " instead of " \o ToString(want.all)
  ELSE ""
Last(r, s) == ""
(***************************************************************************)
(* One step per recorded operation; w is the state the specification is in.*)
(***************************************************************************)
VARIABLES l, k, w
R0 == Trace[l]
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
At == "operation " \o ToString(k) \o " " \o ToString(R0.ops[k]) \o ": "
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ cfg = NoCfg /\ st = <<>> /\ hist = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ LET why == First(R0)
            IN IF why # "" THEN Bad0(why) /\ NextRecord
               ELSE /\ l' = l /\ k' = 1 /\ w' = StartOf(R0)
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
        /\ IF k > Len(R0.res) THEN Bad0(At \o "did not return") /\ NextRecord
           ELSE LET e == StepOf(R0, w, R0.ops[k])
                    why == Compare(R0, e.r, R0.res[k])
                IN IF why # "" THEN Bad0(At \o why) /\ NextRecord
                   ELSE l' = l /\ k' = k + 1 /\ w' = e.s
End == /\ k > Len(R0.ops)
       /\ LET why == Last(R0, w) IN IF why # "" THEN Bad0(why) ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, vars>>
=============================================================================
