------------------------------- MODULE SqlSubst -------------------------------
(***************************************************************************)
(* Binding of parameters (C09).  A template is the tokens of a script; its *)
(* placeholders are the tokens ? and $k (dk).  The n-th ? stands for       *)
(* parameter n and $k for parameter k.  A parameter is [g, sym]: the Go    *)
(* type of the value and the literal token which denotes it.               *)
(***************************************************************************)
EXTENDS SqlSyntax, FiniteSets

NumOf(t) == LET RECURSIVE V(_, _)
                V(i, acc) == IF i > Len(t) THEN acc
                             ELSE V(i + 1, acc * 10 + (CHOOSE k \in 0..9 : ToString(k) = SubSeq(t, i, i)))
            IN V(2, 0)
\* the parameter that position j of T takes (0: it is no placeholder)
Marks(T, j) == Cardinality({k \in 1..j : T[k] = "?"})
Takes(T, j) == IF T[j] = "?" THEN Marks(T, j) ELSE IF Symbol(T[j], "d") THEN NumOf(T[j]) ELSE 0
Subst(T, P) == [j \in 1..Len(T) |-> LET n == Takes(T, j) IN IF n \in 1..Len(P) THEN P[n].sym ELSE T[j]]
Used(T, P) == {Takes(T, j) : j \in 1..Len(T)} \cap (1..Len(P))
AllUsed(T, P) == Used(T, P) = 1..Len(P)
=============================================================================
