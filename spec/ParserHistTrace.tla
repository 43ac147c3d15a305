--------------------------- MODULE ParserHistTrace ---------------------------
(***************************************************************************)
(* Conformance of recorded parser histories.  m[t] is what text t means:   *)
(* for a valid text the meaning given by SqlSyntax, for any other text what*)
(* was returned for it first.                                              *)
(***************************************************************************)
EXTENDS ParserHist, IOUtils
Syn == INSTANCE SqlSyntax
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, w, m
R0 == Trace[l]
None == [res |-> "", asts |-> <<>>, err |-> ""]
Meaning(x) == IF x.valid THEN LET r == Syn!Parse(x.toks) IN [res |-> "ok", asts |-> r.v, err |-> ""] ELSE None
Fits(M, t, got) == M[t] = None \/ got = M[t]
Learn(M, t, got) == IF M[t] = None THEN [M EXCEPT ![t] = got] ELSE M
Bad0(why) == PrintT("BAD " \o ToString(R0.id) \o " " \o why)
NextRecord == /\ l' = l + 1 /\ k' = 0 /\ w' = <<>> /\ m' = <<>>
              /\ IF l = Len(Trace) THEN PrintT("END " \o ToString(l)) ELSE TRUE
Diff(t, got, want) == "text " \o ToString(t) \o " gives " \o ToString(got) \o " instead of " \o ToString(want)
TInit == l = 1 /\ k = 0 /\ w = <<>> /\ m = <<>> /\ held = <<>> /\ hist = <<>> /\ thr = <<>> /\ done = FALSE
Begin == /\ k = 0
         /\ IF R0.panic # "" THEN Bad0(R0.panic) /\ NextRecord
            ELSE /\ l' = l /\ k' = 1 /\ w' = <<>>
                 /\ m' = [t \in 1..Len(R0.texts) |-> Meaning(R0.texts[t])]
OpStep == /\ k > 0 /\ k <= Len(R0.ops)
          /\ LET o == R0.ops[k]
                 got == R0.res[k].now
             IN IF o.op # "parse" THEN l' = l /\ k' = k + 1 /\ w' = Step(w, o) /\ m' = m
                ELSE IF ~Fits(m, o.t, got) THEN Bad0("operation " \o ToString(k) \o ": " \o Diff(o.t, got, m[o.t])) /\ NextRecord
                ELSE l' = l /\ k' = k + 1 /\ w' = Step(w, o) /\ m' = Learn(m, o.t, got)
\* at the end every result the caller left alone is still what it was
Parses == SelectSeq([i \in 1..Len(R0.ops) |-> IF R0.ops[i].op = "parse" THEN i ELSE 0], LAMBDA i : i > 0)
\* the events of the threads, in the order of the record
AllEvents == [i \in 1..Len(R0.events) |-> R0.events[i]]
RECURSIVE LearnAll(_, _)
LearnAll(M, E) == IF E = <<>> THEN M ELSE LearnAll(Learn(M, Head(E).t, Head(E).now), Tail(E))
End == /\ k > Len(R0.ops)
       /\ LET late == {j \in 1..Len(w) : w[j].fresh /\ R0.res[Parses[j]].later # R0.res[Parses[j]].now}
              M == LearnAll(m, R0.events)
              bad == {i \in 1..Len(R0.events) : R0.events[i].now # M[R0.events[i].t]}
              late2 == {i \in 1..Len(R0.events) : R0.events[i].later # R0.events[i].now}
          IN IF late # {} THEN LET j == CHOOSE j \in late : TRUE
                               IN Bad0("the result of operation " \o ToString(Parses[j]) \o " changed later to " \o ToString(R0.res[Parses[j]].later))
             ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN Bad0("concurrently: " \o Diff(R0.events[i].t, R0.events[i].now, M[R0.events[i].t]))
             ELSE IF late2 # {} THEN Bad0("a concurrent result changed later")
             ELSE TRUE
       /\ NextRecord
TNext == /\ l <= Len(Trace) /\ (Begin \/ OpStep \/ End) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, k, w, m, vars>>
=============================================================================
