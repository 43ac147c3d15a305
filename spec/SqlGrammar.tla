----------------------------- MODULE SqlGrammar -----------------------------
(***************************************************************************)
(* Which sequences of token classes are scripts: the language of the rule  *)
(* "script" of SqlGrammarData (the supported dialect; the rule "parse" is  *)
(* the full grammar).  Ends(n, C, P) is the set of positions at which a    *)
(* part derived from n can end when it starts at one of the positions P of *)
(* C.                                                                      *)
(***************************************************************************)
EXTENDS SqlLex

Class(C, p) == IF p <= Len(C) THEN C[p] ELSE "EOF"
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), AltEnds(_, _, _, _), LoopEnds(_, _, _, _)
Ends(n, C, P) ==
  IF P = {} THEN {}
  ELSE CASE n.k = "t" -> IF n.v = "KEYWORD" THEN {p + 1 : p \in {q \in P : Class(C, q) \in NameKeywords}}
                         ELSE {p + 1 : p \in {q \in P : Class(C, q) = n.v}}
         [] n.k = "n" -> Ends(Rules[n.v], C, P)
         [] n.k = "s" -> SeqEnds(n.c, 1, C, P)
         [] n.k = "a" -> AltEnds(n.c, 1, C, P)
         [] n.k = "o" -> P \cup Ends(n.e, C, P)
         [] n.k = "z" -> LoopEnds(n.e, C, P, P)
         [] n.k = "p" -> LET F == Ends(n.e, C, P) IN LoopEnds(n.e, C, F, F)
SeqEnds(c, j, C, P) == IF j > Len(c) \/ P = {} THEN P ELSE LET E == Ends(c[j], C, P) IN SeqEnds(c, j + 1, C, E)
AltEnds(c, j, C, P) == IF j > Len(c) THEN {} ELSE Ends(c[j], C, P) \cup AltEnds(c, j + 1, C, P)
LoopEnds(e, C, seen, new) ==
  IF new = {} THEN seen
  ELSE LET F == Ends(e, C, new) \ seen IN LoopEnds(e, C, seen \cup F, F)
Derives(rule, C) == Ends(Rules[rule], C, {1}) # {}
\* a text is a script of the supported dialect
IsScript(s) == Derives("script", Classes(Lex(s)))
=============================================================================
