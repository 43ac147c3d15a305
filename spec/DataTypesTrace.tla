--------------------------- MODULE DataTypesTrace ---------------------------
(* Conformance of recorded data type lookups with DataTypes. *)
EXTENDS DataTypes, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Why(r) ==
  IF r.panic # "" THEN r.panic
  ELSE CASE r.kind = "name" -> IF \E i \in 1..Len(r.got) : r.got[i] # TypeOf(r.name) THEN "name " \o r.name \o " is read as " \o ToString(r.got) \o " instead of " \o TypeOf(r.name) ELSE ""
         [] r.kind = "type" -> IF r.got # <<NameOf(r.name)>> THEN r.name \o " prints as " \o ToString(r.got) \o " instead of " \o NameOf(r.name) ELSE ""
         [] r.kind = "all" -> \* the printed forms of all 256 values: every name once, else nothing
              LET names == {Types[i].s : i \in 1..Len(Types)}
              IN IF Len(r.got) # 256 \/ \E n \in names : Count(r.got, n) # 1 THEN "a name is missing or not unique: " \o ToString(r.got)
                 ELSE IF Count(r.got, "") # 256 - Len(Types) THEN "unknown values print " \o ToString(r.got) ELSE ""
         [] OTHER -> LET w == Want(r.kind, r.name)
                     IN IF \E i \in 1..Len(r.got) : r.got[i] # w THEN r.kind \o " " \o r.name \o " has the types " \o ToString(r.got) \o " instead of " \o w ELSE ""
VARIABLE l
TInit == l = 1 /\ val = "" /\ edits = 0
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
         /\ LET w == Why(Trace[l]) IN IF w # "" THEN PrintT("BAD " \o ToString(Trace[l].id) \o " " \o w) ELSE TRUE
         /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================
