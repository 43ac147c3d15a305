----------------------------- MODULE SqlDerive ------------------------------
(***************************************************************************)
(* Random leftmost derivations of the full grammar (one of the rules Starts).  While the *)
(* budget lasts every alternative is possible; then the one with the       *)
(* smallest derivation is taken.  Names and literals become symbols (see   *)
(* SqlSyntax), which the driver replaces by text.                          *)
(***************************************************************************)
EXTENDS SqlGrammar, Json, Integers

CONSTANTS Starts, Budget, Depth, Fancy, Emit    \* Fancy: names may be keywords, strings and parenthesised
VARIABLES start, stack, out, left
vars == <<start, stack, out, left>>

Inf == 1000
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Sum(a, b) == IF a + b > Inf THEN Inf ELSE a + b
\* the smallest number of tokens derived from a node, given that of the rules
RECURSIVE Size(_, _), SizeFrom(_, _, _)
SizeFrom(c, j, H) == IF j > Len(c) THEN 0 ELSE Sum(Size(c[j], H), SizeFrom(c, j + 1, H))
Size(n, H) == CASE n.k = "t" -> IF n.v = "EOF" THEN 0 ELSE 1
                [] n.k = "n" -> H[n.v]
                [] n.k = "s" -> SizeFrom(n.c, 1, H)
                [] n.k = "a" -> Min({Size(n.c[j], H) : j \in 1..Len(n.c)})
                [] n.k \in {"o", "z"} -> 0
                [] n.k = "p" -> Size(n.e, H)
R(S, d) == RandomElement(IF left = left THEN S ELSE {})
Symbol(c, d) ==
  LET n == ToString(R(1..9, d))
  IN CASE c = "IDENT" -> "i" \o n
       [] c = "KEYWORD" -> IF R(1..4, d) = 1 THEN R(NameKeywords, d) ELSE "i" \o n
       [] c = "NUM" -> "u" \o n
       [] c = "STR" -> "s" \o n
       [] c = "BLOB" -> "x" \o n
       [] c = "BIND" -> R({"?", "d" \o n, "c" \o n}, d)
       [] c = "SYSVAR" -> R({"@@x", "@@Global"}, d)
       [] c = "USERVAR" -> R({"@v", "@w"}, d)
       [] OTHER -> c
Init == start \in Starts /\ stack = <<gN(start)>> /\ out = <<>> /\ left = Budget
Pushed(ns) == ns \o Tail(stack)
Names(n) == n.k = "n" /\ n.v = "any_name"
Step ==
  /\ stack # <<>>
  /\ LET n == Head(stack)
         rich == left > 0 /\ Len(out) < Depth
     IN CASE n.k = "t" -> \E x \in {TLCEval(Symbol(n.v, left))} :
                            /\ out' = (IF n.v = "EOF" THEN out ELSE Append(out, x)) /\ stack' = Tail(stack) /\ UNCHANGED left
          [] Names(n) -> /\ \E x \in {TLCEval(R(IF Fancy THEN {"i", "k", "s", "p"} ELSE {"i"}, left) )} : \E y \in {TLCEval(R(1..6, left))} :
                              \E v \in {TLCEval(Symbol(IF x = "k" /\ y = 1 THEN "KEYWORD" ELSE IF x = "s" /\ y = 1 THEN "STR" ELSE "IDENT", left))} :
                                 out' = (IF x = "p" /\ y = 1 THEN out \o <<"(", v, ")">> ELSE Append(out, v))
                         /\ stack' = Tail(stack) /\ UNCHANGED left
          [] n.k = "n" /\ ~Names(n) -> stack' = Pushed(<<Rules[n.v]>>) /\ left' = left - 1 /\ UNCHANGED out
          [] n.k = "s" -> stack' = Pushed(n.c) /\ UNCHANGED <<out, left>>
          [] n.k = "a" -> /\ \E j \in {TLCEval(R(IF rich THEN 1..Len(n.c)
                                                 ELSE LET m == Size(n, Smallest) IN {j \in 1..Len(n.c) : Size(n.c[j], Smallest) = m}, left))} :
                               stack' = Pushed(<<n.c[j]>>)
                          /\ left' = left - 1 /\ UNCHANGED out
          [] n.k = "o" -> /\ \E b \in {TLCEval(R({1, 2, 3, 4}, left))} : stack' = Pushed(IF rich /\ b = 1 THEN <<n.e>> ELSE <<>>)
                          /\ left' = left - 1 /\ UNCHANGED out
          [] n.k = "z" -> /\ \E b \in {TLCEval(R({1, 2, 3, 4}, left))} : stack' = Pushed(IF rich /\ b = 1 THEN <<n.e, n>> ELSE <<>>)
                          /\ left' = left - 1 /\ UNCHANGED out
          [] n.k = "p" -> stack' = Pushed(<<n.e, gZ(n.e)>>) /\ UNCHANGED <<out, left>>
Done == /\ stack = <<>> /\ left > -1000000
        /\ left' = -1000000 /\ UNCHANGED <<stack, out>>
        /\ IF Emit THEN PrintT("VEC " \o ToJson([toks |-> out, rule |-> start])) ELSE TRUE
Spec == Init /\ [][(Step \/ Done) /\ UNCHANGED start]_vars
\* a finished derivation is in the language
ClassOf(t) == LET c == SubSeq(t, 1, 1) IN
  IF t = "?" \/ (Len(t) > 1 /\ c \in {"d", "c"}) THEN "BIND"
  ELSE IF Len(t) > 1 /\ c = "i" THEN "IDENT" ELSE IF Len(t) > 1 /\ c = "u" THEN "NUM" ELSE IF Len(t) > 1 /\ c = "s" THEN "STR"
  ELSE IF Len(t) > 1 /\ c = "x" THEN "BLOB" ELSE IF Len(t) > 2 /\ SubSeq(t, 1, 2) = "@@" THEN "SYSVAR" ELSE IF Len(t) > 1 /\ c = "@" THEN "USERVAR"
  ELSE t
InLanguage == (stack = <<>> /\ left > -1000000) => Derives(start, [j \in 1..Len(out) |-> ClassOf(out[j])])
=============================================================================
