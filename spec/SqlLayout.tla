------------------------------ MODULE SqlLayout ------------------------------
(***************************************************************************)
(* Layouts of a script (C05): what is written between its tokens, in which *)
(* letter case its keywords are written and how the text starts and ends.  *)
(* A behaviour derives a script (SqlGen) and then dresses it Dressings     *)
(* times.  Whatever the layout, the text means the same.                   *)
(***************************************************************************)
EXTENDS SqlGen

CONSTANTS Dressings
VARIABLES lays
lvars == <<ph, tk, st, out, left, todo, lays>>
L == INSTANCE SqlLex

\* gaps between tokens; VT stands for a vertical tab, which cannot be written here
GapTexts == {"", " ", "\n", "\t", "\r\n", "\r", "VT", "  \t \n ", "/* it's ; \" ? */", "/* a\n -- b\n ' */", "/***/", "/**/", "/* /* */", "/*/ */",
             " -- it's ; \" /* \n", "--;'?\r\n", "--\n", "-- a\n-- b\n", "/* SELECT */ /* ; */", "--*/\n", "\n\n\n", "-- \\\n", "/* \\*/", "-- SELECT * FROM t;\n"}
Cases == 0..2      \* upper, lower, alternating
Tails == GapTexts \cup {";", ";;", " ; ", "; -- end", "-- end", "--", ";\n", "/* ; */;", "; /* end */", "\n;\n"}
Punct(t) == t \in {"(", ")", ",", ";", ".", "=", "!=", "<>", "<", ">", "<=", ">="}
\* what is written before token j when g is wanted
GapOf(j, g) == IF j = 1 THEN g
               ELSE IF g = "" THEN (IF Punct(tk[j - 1]) \/ Punct(tk[j]) THEN "" ELSE " ")
               ELSE IF tk[j - 1] = "-" THEN " " \o g ELSE g
Layout(d) == LET style == R(1..4, d)
                 one == R(GapTexts, d)
                 all == R(Cases, d)
             IN [gaps |-> [j \in 1..Len(tk) |-> GapOf(j, IF j = 1 THEN (IF style <= 2 THEN R(GapTexts, d) ELSE "") ELSE IF style = 1 THEN one ELSE R(GapTexts, d + j))],
                 cases |-> [j \in 1..Len(tk) |-> IF style >= 3 THEN all ELSE R(Cases, d + j)],
                 tail |-> IF R(1..2, d) = 1 THEN R(Tails, d) ELSE ""]
LInit == Init /\ lays = <<>>
Derive == Next /\ UNCHANGED lays
Dress == /\ ph = "done" /\ Len(lays) < Dressings /\ tk # <<>>
         /\ \E x \in Draw(Layout(left.d + Len(lays))) : lays' = Append(lays, x)
         /\ IF Emit /\ Len(lays) + 1 = Dressings THEN PrintT("VEC " \o ToJson([toks |-> tk, lays |-> lays'])) ELSE TRUE
         /\ UNCHANGED <<ph, tk, st, out, left, todo>>
LSpec == LInit /\ [][Derive \/ Dress]_lvars

(***************************************************************************)
(* The text of a layout with simple names and literals has the tokens of   *)
(* the script, in order, and nothing else.                                 *)
(***************************************************************************)
LowOf == [c \in L!UpperSet |-> LET k == CHOOSE q \in 1..26 : SubSeq(L!Upper, q, q) = c IN SubSeq(L!Lower, k, k)]
RECURSIVE LowFrom(_, _, _)
LowFrom(s, i, step) == IF i > Len(s) THEN ""
                       ELSE LET c == SubSeq(s, i, i) IN (IF c \in L!UpperSet /\ (step = 1 \/ i % 2 = 0) THEN LowOf[c] ELSE c) \o LowFrom(s, i + 1, step)
IsKw(t) == Ch(t) \in L!UpperSet
SimpleText(t, case) ==
  IF Symbol(t, "s") THEN "'" \o t \o "; --''/*'" ELSE IF Symbol(t, "x") THEN "x'0" \o SubSeq(t, 2, 2) \o "'"
  ELSE IF Symbol(t, "n") \/ IsUint(t) \/ IsSize(t) THEN SubSeq(t, 2, Len(t)) ELSE IF Symbol(t, "d") THEN "$" \o SubSeq(t, 2, Len(t))
  ELSE IF Symbol(t, "c") THEN ":" \o t ELSE IF ~IsKw(t) THEN t
  ELSE IF case = 1 THEN LowFrom(t, 1, 1) ELSE IF case = 2 THEN LowFrom(t, 1, 2) ELSE t
Written(g) == IF g = "VT" THEN " " ELSE IF g = " VT" THEN "  " ELSE g
RECURSIVE TextFrom(_, _)
TextFrom(j, lay) == IF j > Len(tk) THEN Written(lay.tail) ELSE Written(lay.gaps[j]) \o SimpleText(tk[j], lay.cases[j]) \o TextFrom(j + 1, lay)
Same == (ph = "done" /\ lays # <<>>) =>
          LET lay == lays[Len(lays)]
              all == L!Lex(TextFrom(1, lay))
              got == SubSeq(all, 1, Len(tk))
          IN /\ Len(all) >= Len(tk) /\ \A j \in (Len(tk) + 1)..Len(all) : all[j].c = ";"
             /\ \A j \in 1..Len(tk) : IsKw(tk[j]) => got[j].c \in {tk[j], "IDENT"} /\ L!Up(got[j].v) = tk[j]
             /\ \A j \in 1..Len(tk) : ~IsKw(tk[j]) => got[j].v = SimpleText(tk[j], 0)
=============================================================================
