------------------------------- MODULE SqlTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded parses with SqlSyntax.  Each line of the trace  *)
(* is one call of the real parser: the tokens of the text it was given, its*)
(* outcome (res, asts, helper answers hs) and, per statement, the printed  *)
(* text (as tokens), the outcome of parsing that text and whether printing *)
(* is a fixpoint.  The specification recomputes what the text means.       *)
(***************************************************************************)
EXTENDS SqlSubst, Json, IOUtils

CONSTANT Mode    \* "fidelity", "roundtrip" or "error"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* Derived answers of the API.
RECURSIVE JoinArgs(_)
JoinArgs(a) == IF a = <<>> THEN "" ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] \o "," \o JoinArgs(Tail(a))
SelName(s) == IF s.f = "F" THEN s.n \o "(" \o JoinArgs(s.a) \o ")" ELSE s.n
FullName(t) == IF t.s = "" THEN t.t ELSE t.s \o "." \o t.t
Empty == [names |-> <<>>, tabs |-> <<>>, star |-> FALSE, hasf |-> FALSE, hasg |-> FALSE]
Derived(st) ==
  CASE st.k = "SELECT" ->
         [names |-> Each(SelName, st.sel), tabs |-> Each(FullName, st.from),
          star |-> Len(st.sel) = 1 /\ st.sel[1].n = "*",
          hasf |-> \E j \in 1..Len(st.sel) : st.sel[j].f = "F",
          hasg |-> \E j \in 1..Len(st.sel) : st.sel[j].f = "F" /\ IsAggr(st.sel[j].n)]
    [] st.k = "INSERT" ->
         [Empty EXCEPT !.names = [m \in 1..Len(st.rows[1]) |-> st.rows[1][m].c], !.tabs = <<st.tb.t>>]
    [] st.k \in {"DROP TABLE", "TRUNCATE"} -> [Empty EXCEPT !.tabs = Each(FullName, st.from)]
    [] st.k = "CREATE TABLE" -> [Empty EXCEPT !.tabs = <<st.tb.t>>, !.names = [m \in 1..Len(st.cols) |-> st.cols[m].n]]
    [] OTHER -> Empty

\* "" or the reason why a record does not conform
Fidelity(r) ==
  LET m == Parse(r.toks)
  IN IF ~m.ok THEN (IF r.res = "err" /\ r.asts = <<>> THEN "" ELSE "accepted a text that has no meaning: " \o r.res)
     ELSE IF r.res # "ok" THEN "rejected a valid text: " \o r.res
     ELSE IF Len(r.asts) # Len(m.v) THEN "number of statements"
     ELSE IF r.asts # m.v THEN "statement differs: expected " \o ToString(m.v) \o " got " \o ToString(r.asts)
     ELSE IF r.hs # Each(Derived, m.v) THEN "derived answers differ: expected " \o ToString(Each(Derived, m.v)) \o " got " \o ToString(r.hs)
     ELSE ""
RoundTrip(r) ==
  IF r.res = "panic" THEN "panic"
  ELSE IF r.res # "ok" THEN ""
  ELSE IF Len(r.pr) # Len(r.asts) THEN "printing"
  ELSE IF \E j \in 1..Len(r.asts) : r.pr[j].res # "ok" \/ Len(r.pr[j].asts) # 1
       THEN "the printed text does not parse to one statement"
  ELSE IF \E j \in 1..Len(r.asts) : r.pr[j].asts[1] # r.asts[j] THEN "the printed text parses to another statement"
  ELSE IF \E j \in 1..Len(r.asts) : ~r.pr[j].fix THEN "printing again gives another text"
  ELSE IF \E j \in 1..Len(r.asts) : LET m == Parse(r.pr[j].toks) IN ~m.ok \/ m.v # <<r.asts[j]>>
       THEN "the printed text does not mean the statement"
  ELSE ""
Rejected(r) == IF r.res = "err" /\ r.asts = <<>> THEN "" ELSE "malformed text not rejected: " \o r.res
Sane(r) == IF r.res \in {"ok", "err"} THEN "" ELSE r.res
\* one script written in several layouts
RECURSIVE Layouts(_, _)
Layouts(r, j) == IF j > Len(r.runs) THEN ""
                 ELSE LET y == r.runs[j]
                          why == Fidelity([toks |-> r.toks, res |-> y.res, asts |-> y.asts, hs |-> y.hs])
                      IN IF why # "" THEN "layout " \o ToString(j) \o ": " \o why ELSE Layouts(r, j + 1)
\* a template bound to parameters, twice
Bound(r) == LET run(j) == r.runs[j]
                one(j) == IF AllUsed(r.toks, r.params)
                          THEN Fidelity([toks |-> Subst(r.toks, r.params), res |-> run(j).res, asts |-> run(j).asts, hs |-> run(j).hs])
                          ELSE IF run(j).res = "err" /\ run(j).asts = <<>> THEN "" ELSE "a parameter without placeholder was accepted: " \o run(j).res
            IN IF one(1) # "" THEN one(1) ELSE IF one(2) # "" THEN "second time: " \o one(2) ELSE ""
Judge(r) == CASE Mode = "fidelity" -> Fidelity(r)
              [] Mode = "roundtrip" -> RoundTrip(r)
              [] Mode = "error" -> Rejected(r)
              [] Mode = "layout" -> Layouts(r, 1)
              [] Mode = "bind" -> Bound(r)
              [] Mode = "sane" -> Sane(r)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET why == Judge(Trace[l])
           IN IF why = "" THEN TRUE ELSE PrintT("BAD " \o ToString(Trace[l].id) \o " " \o why)
Spec == Init /\ [][Next]_l
\* every record was judged
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
