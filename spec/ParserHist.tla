------------------------------ MODULE ParserHist ------------------------------
(***************************************************************************)
(* Parsers and the results they returned (C08).                            *)
(*                                                                         *)
(* Texts are numbers.  A parse returns the meaning of its text and keeps   *)
(* every earlier result as it is.  The caller may overwrite a result it    *)
(* got ("spoil"): this concerns that result only.                          *)
(* State: the held results, each [t, fresh]: the text and whether the      *)
(* caller left it alone.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Parsers, Texts, Threads, PerThread, Emit
VARIABLES held, hist, thr, done
vars == <<held, hist, thr, done>>

P(p, t) == [op |-> "parse", p |-> p, t |-> t]
Spoil(j) == [op |-> "spoil", p |-> 0, t |-> j]
Step(h, o) == IF o.op = "parse" THEN Append(h, [t |-> o.t, fresh |-> TRUE])
              ELSE [h EXCEPT ![o.t].fresh = FALSE]
Ops(h) == {P(p, t) : p \in 0..Parsers, t \in 1..Texts} \cup {Spoil(j) : j \in {j \in 1..Len(h) : h[j].fresh}}   \* parser 0: a new one
Init == held = <<>> /\ hist = <<>> /\ thr = <<>> /\ done = FALSE
Do(o) == held' = Step(held, o) /\ hist' = Append(hist, o) /\ UNCHANGED <<thr, done>>
Act == Len(hist) < MaxOps /\ Threads = 0 /\ \E o \in Ops(held) : Do(o)
RandomAct == Len(hist) < MaxOps /\ Threads = 0 /\ \E o \in {TLCEval(RandomElement(IF done = done THEN Ops(held) ELSE {}))} : Do(o)
\* one parser per thread
Thread(d) == [j \in 1..PerThread |-> RandomElement(IF done = done THEN 1..Texts ELSE {})]
Fork == thr = <<>> /\ Threads > 0 /\ \E x \in {TLCEval([i \in 1..Threads |-> Thread(i)])} : thr' = x /\ UNCHANGED <<held, hist, done>>
Done == /\ Emit /\ ~done /\ (IF Threads = 0 THEN Len(hist) = MaxOps ELSE thr # <<>>) /\ done' = TRUE /\ UNCHANGED <<held, hist, thr>>
        /\ PrintT("VEC " \o ToJson([ops |-> hist, threads |-> thr]))
Spec == Init /\ [][Act \/ Done]_vars
RandomSpec == Init /\ [][RandomAct \/ Fork \/ Done]_vars

\* a result stays what it was until its caller changes it
Stable == [][\A j \in 1..Len(held) : held'[j].t = held[j].t /\ (held'[j].fresh = held[j].fresh \/ hist'[Len(hist')] = Spoil(j))]_held
=============================================================================
