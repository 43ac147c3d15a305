-------------------------------- MODULE Stack --------------------------------
(***************************************************************************)
(* The object stack of sql/util (C21).  A value is a symbol "<kind><k>";   *)
(* the driver turns kinds into nil, numbers, strings, slices, maps,        *)
(* pointers and structs.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxOps,   \* length of a history
          Vals,     \* values to push
          Bulk,     \* numbers of objects of a bulk push or pop
          Emit
VARIABLES held, hist, done
vars == <<held, hist, done>>

Push(v)  == [op |-> "push", v |-> v, n |-> 1]
PushN(n) == [op |-> "pushn", v |-> "", n |-> n]
Pop      == [op |-> "pop", v |-> "", n |-> 1]
PopN(n)  == [op |-> "popn", v |-> "", n |-> n]
Peek     == [op |-> "peek", v |-> "", n |-> 1]
Ops == {Push(v) : v \in Vals} \cup {Pop, Peek} \cup {PushN(n) : n \in Bulk} \cup {PopN(n) : n \in Bulk}

Top(s) == IF s = <<>> THEN "nil" ELSE s[Len(s)]
Front(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
Min2(a, b) == IF a < b THEN a ELSE b
\* Step: the state after an operation, what it returns and the size then.
Step(s, o) ==
  LET t == CASE o.op = "push"  -> Append(s, o.v)
             [] o.op = "pushn" -> s \o [j \in 1..o.n |-> "i" \o ToString(j)]
             [] o.op = "pop"   -> Front(s)
             [] o.op = "popn"  -> SubSeq(s, 1, Len(s) - Min2(o.n, Len(s)))
             [] o.op = "peek"  -> s
      r == CASE o.op \in {"pop", "peek"} -> <<Top(s)>>
             [] o.op = "popn" -> [j \in 1..o.n |-> IF j <= Len(s) THEN s[Len(s) - j + 1] ELSE "nil"]
             [] OTHER -> <<>>
  IN [s |-> t, r |-> [r |-> r, size |-> Len(t)]]

Init == held = <<>> /\ hist = <<>> /\ done = FALSE
Act == /\ Len(hist) < MaxOps /\ UNCHANGED done
       /\ \E o \in Ops : held' = Step(held, o).s /\ hist' = Append(hist, o)
\* a complete history is handed to the driver
Done == /\ Emit /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<held, hist>>
        /\ PrintT("VEC " \o ToJson([ops |-> hist]))
Next == Act \/ Done
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The history decides the stack: a push is held exactly when no later     *)
(* stretch of the history pops more than it pushes (histories without bulk *)
(* operations).                                                            *)
(***************************************************************************)
RECURSIVE Count(_, _, _, _)
Count(h, a, b, op) == IF a > b THEN 0 ELSE (IF h[a].op = op THEN 1 ELSE 0) + Count(h, a + 1, b, op)
HeldPush(h, i) == h[i].op = "push"
                  /\ \A j \in (i + 1)..Len(h) : Count(h, i + 1, j, "pop") <= Count(h, i + 1, j, "push")
RECURSIVE Unmatched(_, _)
Unmatched(h, i) == IF i > Len(h) THEN <<>>
                   ELSE (IF HeldPush(h, i) THEN <<h[i].v>> ELSE <<>>) \o Unmatched(h, i + 1)
LastInFirstOut == Bulk = {} => held = Unmatched(hist, 1)
=============================================================================
