------------------------------- MODULE Script --------------------------------
(***************************************************************************)
(* Scripts (C06): texts of statements with separators between them.  The   *)
(* machine writes a script piece by piece and keeps the result that parsing*)
(* the text so far must give: a piece is one statement, valid or not; once *)
(* an invalid piece is written, no statement is returned any more.         *)
(*                                                                         *)
(* A script is [pieces, seps]: pieces[j] is TRUE for a valid statement,    *)
(* seps[j] is the separator before pieces[j] (seps[1]: before the script)  *)
(* and the last one the end of the text.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxPieces, Seps, Ends, BadOneIn, Emit
VARIABLES pieces, seps, result, n, done
vars == <<pieces, seps, result, n, done>>
R(S) == RandomElement(IF done = done THEN S ELSE {})

Error == <<0>>
\* the result of a text of the given pieces: the statements in order, or an error
Result(ps) == IF \E j \in 1..Len(ps) : ~ps[j] THEN Error ELSE [j \in 1..Len(ps) |-> j]
Init == pieces = <<>> /\ seps = <<>> /\ result = <<>> /\ n = 0 /\ done = FALSE
Setup == n = 0 /\ \E k \in {TLCEval(R(1..MaxPieces))} : n' = k /\ UNCHANGED <<pieces, seps, result, done>>
Write == /\ n > 0 /\ Len(pieces) < n
         /\ \E s \in {TLCEval(R(IF pieces = <<>> THEN Ends ELSE Seps))}, b \in {TLCEval(R(1..BadOneIn))} :
              LET ok == b > 1 \/ BadOneIn = 1 \* 1: only valid statements
              IN /\ pieces' = Append(pieces, ok) /\ seps' = Append(seps, s)
                 /\ result' = (IF ok /\ result # Error THEN Append(result, Len(pieces) + 1) ELSE Error)
         /\ UNCHANGED <<n, done>>
Done == /\ Emit /\ n > 0 /\ Len(pieces) = n /\ ~done /\ done' = TRUE /\ UNCHANGED <<pieces, result, n>>
        /\ \E s \in {TLCEval(R(Ends))} : seps' = Append(seps, s)
        /\ PrintT("VEC " \o ToJson([ok |-> pieces, seps |-> seps']))
Spec == Init /\ [][Setup \/ Write \/ Done]_vars
\* the result kept while writing is that of the whole text; it never loses or reorders statements
Consistent == result = Result(pieces)
Ordered == result # Error => \A j \in 1..Len(result) : result[j] = j
Grows == [][result' = Error \/ (result # Error /\ Len(result') \in {Len(result), Len(result) + 1})]_vars
=============================================================================
