----------------------------- MODULE ScriptTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded parses of scripts with Script.  A record has for*)
(* each piece the outcome of parsing it alone (res and its statements) and *)
(* the outcome for the whole text.                                         *)
(***************************************************************************)
EXTENDS Script, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Judge(r) ==
  LET k == Len(r.alone)
      valid == [j \in 1..k |-> r.alone[j].res = "ok"]
      all == Flat([j \in 1..k |-> r.alone[j].stmts])
      kinds == [j \in 1..Len(r.whole.stmts) |-> r.whole.stmts[j].k]
      want == Result(valid)
  IN IF r.panic # "" THEN r.panic
     ELSE IF \E j \in 1..k : r.ok[j] /\ ~valid[j] THEN "a valid statement is rejected"
     ELSE IF \E j \in 1..k : r.ok[j] /\ Len(r.alone[j].stmts) # 1 THEN "a statement gives several"
     ELSE IF want = Error
       THEN (IF r.whole.res = "err" /\ r.whole.stmts = <<>> THEN ""
             ELSE "a script with an invalid statement gives " \o r.whole.res \o " " \o ToString(kinds))
     ELSE IF r.whole.res # "ok" THEN "a script of valid statements is rejected"
     ELSE IF r.whole.stmts # all THEN "the statements are " \o ToString(kinds) \o " (" \o ToString(Len(kinds)) \o ") instead of those of the " \o ToString(k) \o " texts"
     ELSE ""
TInit == l = 1 /\ Init
Next == /\ l <= Len(Trace)
        /\ l' = l + 1 /\ UNCHANGED vars
        /\ LET why == Judge(Trace[l])
           IN IF why = "" THEN TRUE ELSE PrintT("BAD " \o ToString(Trace[l].id) \o " " \o why)
TSpec == TInit /\ [][Next]_<<l, vars>>
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
