------------------------------- MODULE EditGen -------------------------------
(* Random sequences of character-level edits. *)
EXTENDS TextEdit, Json
CONSTANTS MaxEdits, Emit
VARIABLES edits, n
vars == <<edits, n>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Init == edits = <<>> /\ n = 0
Setup == n = 0 /\ \E m \in {TLCEval(R(1..MaxEdits))} : n' = m /\ UNCHANGED edits
Step == /\ n > 0 /\ Len(edits) < n
        /\ \E e \in {TLCEval([op |-> R(EditOps), at |-> R(0..1000), ch |-> R(EditTexts)])} : edits' = Append(edits, e)
        /\ UNCHANGED n
Done == /\ Emit /\ n > 0 /\ Len(edits) = n /\ n' = -1 /\ UNCHANGED edits
        /\ PrintT("VEC " \o ToJson([edits |-> edits]))
Spec == Init /\ [][Setup \/ Step \/ Done]_vars
\* edits keep within the text, and inserting lengthens it
Sample == "SELECT a FROM t"
Within == \A j \in 1..Len(edits) : LET e == edits[j] IN
            /\ Place(Sample, e.at) \in 1..(Len(Sample) + 1)
            /\ Len(Edited(Sample, e)) \in 0..(Len(Sample) + 8 * 60)
            /\ (e.op = "ins" => Len(Edited(Sample, e)) = Len(Sample) + Len(e.ch))
=============================================================================
