------------------------------ MODULE SqlMutate ------------------------------
(***************************************************************************)
(* Derived texts with a few changed tokens.  A behaviour derives a script  *)
(* (SqlGen) and then changes it MaxMut times.  "sib" replaces a symbol by  *)
(* another one of its class, which keeps the text a script; the other      *)
(* changes may give any sequence of tokens.                                *)
(***************************************************************************)
EXTENDS SqlGen

CONSTANTS Changes, MaxMut, Alphabet
VARIABLES mut, was
mvars == <<ph, tk, st, out, left, todo, mut, was>>

IsSymbol(t) == IsId(t) \/ IsFn(t) \/ IsUint(t) \/ IsSize(t) \/ Symbol(t, "n") \/ Symbol(t, "s") \/ Symbol(t, "x") \/ Symbol(t, "d") \/ Symbol(t, "c")
\* another symbol of the class of t
Sibling(t, d) == IF IsFn(t) THEN N(Ch(t), IF IsAggr(t) THEN 5 ELSE 8, d) ELSE Ch(t) \o ToString(LitMax + R(1..9, d))
Put(T, j, t) == [T EXCEPT ![j] = t]
Insert(T, j, t) == SubSeq(T, 1, j - 1) \o <<t>> \o SubSeq(T, j, Len(T))
Remove(T, j) == SubSeq(T, 1, j - 1) \o SubSeq(T, j + 1, Len(T))
Syms(T) == {j \in 1..Len(T) : IsSymbol(T[j])}
Changed(T, c, d) ==
  LET n == Len(T)
      j == R(1..n, d)
  IN CASE c = "sib" -> IF Syms(T) = {} THEN T ELSE LET k == R(Syms(T), d) IN Put(T, k, Sibling(T[k], d))
       [] c = "drop" -> Remove(T, j)
       [] c = "dup" -> Insert(T, j, T[j])
       [] c = "cut" -> SubSeq(T, 1, R(0..n - 1, d))
       [] c = "tail" -> SubSeq(T, R(2..n + 1, d), n)
       [] c = "swap" -> IF n < 2 THEN T ELSE LET k == R(1..n - 1, d) IN [T EXCEPT ![k] = T[k + 1], ![k + 1] = T[k]]
       [] c = "ins" -> Insert(T, R(1..n + 1, d), R(Alphabet, d))
       [] c = "own" -> Insert(T, R(1..n + 1, d), T[j])
       [] c = "rep" -> Put(T, j, R(Alphabet, d))
       [] c = "app" -> T \o <<R(Alphabet, d)>>
       [] c = "move" -> LET U == Remove(T, j) IN Insert(U, R(1..Len(U) + 1, d), T[j])
MInit == Init /\ mut = <<>> /\ was = <<>>
Derive == Next /\ UNCHANGED <<mut, was>>
Mutate == /\ ph = "done" /\ Len(mut) < MaxMut /\ tk # <<>>
          /\ \E c \in Draw(R(Changes, left.d + Len(mut))) : \E T \in Draw(Changed(tk, c, left.d + Len(mut))) :
               /\ tk' = T /\ mut' = Append(mut, c) /\ was' = (IF mut = <<>> THEN tk ELSE was)
               /\ IF Emit /\ Len(mut) + 1 = MaxMut THEN PrintT("VEC " \o ToJson([toks |-> T, was |-> was', mut |-> mut'])) ELSE TRUE
          /\ UNCHANGED <<ph, st, out, left, todo>>
MSpec == MInit /\ [][Derive \/ Mutate]_mvars
\* replacing symbols by symbols of their class keeps a script a script
SiblingsParse == (ph = "done" /\ \A j \in 1..Len(mut) : mut[j] = "sib") => Parse(tk).ok
=============================================================================
