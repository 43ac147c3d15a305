------------------------------ MODULE ErrsTrace ------------------------------
(* Conformance of recorded errors and texts with Errs. *)
EXTENDS Errs, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in 1..Len(s)}
Why(r) ==
  IF r.panic # "" THEN r.panic
  ELSE CASE r.kind \in {"code", "class"} ->
              IF r.text # TextOf(r.kind, r.name) THEN r.kind \o " " \o r.name \o " reports " \o r.text \o " instead of " \o TextOf(r.kind, r.name) ELSE ""
         [] r.kind = "const" ->
              LET T == IF r.subject = "code" THEN Codes ELSE Classes
                  i == CHOOSE i \in 1..Len(T) : T[i].n = r.name
              IN IF r.value # T[i].c THEN r.name \o " is " \o r.value \o " instead of " \o T[i].c
                 ELSE IF r.text # T[i].t THEN r.name \o " reports " \o r.text \o " instead of " \o T[i].t ELSE ""
         [] OTHER ->
              LET s == Of(r.kind, r.name)
              IN IF ~r.failed THEN r.name \o " did not fail"
                 ELSE IF Range(r.is) # (IF s.is = "" THEN {} ELSE {s.is}) THEN r.name \o " matches " \o ToString(r.is) \o " instead of " \o s.is
                 ELSE IF s.names /\ ~r.names THEN r.name \o " does not name " \o r.subject \o ": " \o r.text
                 ELSE IF r.text = "" THEN r.name \o " has no message" ELSE ""
VARIABLE l
TInit == l = 1 /\ kind = "" /\ val = "" /\ edits = 0
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
         /\ LET w == Why(Trace[l]) IN IF w # "" THEN PrintT("BAD " \o ToString(Trace[l].id) \o " " \o w) ELSE TRUE
         /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================
