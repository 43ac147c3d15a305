------------------------------- MODULE SqlLex -------------------------------
(***************************************************************************)
(* The lexical level of the dialect: a text is cut into tokens by longest  *)
(* match.  A token is [c |-> class, v |-> text]; the classes are those of  *)
(* SqlGrammarData: keywords (upper case), punctuation, IDENT, NUM, STR,    *)
(* BLOB, BIND, SYSVAR, USERVAR and BAD (a character that starts no token). *)
(* Whitespace and comments separate tokens and have no other meaning.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, SqlGrammarData

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerSet == {SubSeq(Lower, j, j) : j \in 1..26}
UpperSet == {SubSeq(Upper, j, j) : j \in 1..26}
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
WordStart == LowerSet \cup UpperSet \cup {"_"}
WordPart == WordStart \cup Digits
UpMap == [c \in LowerSet |-> LET j == CHOOSE j \in 1..26 : SubSeq(Lower, j, j) = c IN SubSeq(Upper, j, j)]
UpOf == TLCEval(UpMap)
RECURSIVE UpFrom(_, _)
UpFrom(s, i) == IF i > Len(s) THEN ""
                ELSE LET c == SubSeq(s, i, i) IN (IF c \in LowerSet THEN UpOf[c] ELSE c) \o UpFrom(s, i + 1)
Up(s) == UpFrom(s, 1)
Spaces == {" ", "\t", "\n", "\r"}

At(s, i) == IF i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
\* the first position from i on whose character is not in C
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF i <= Len(s) /\ SubSeq(s, i, i) \in C THEN Skip(s, i + 1, C) ELSE i
\* the first position from i on whose character is in C (0: none)
RECURSIVE Find(_, _, _)
Find(s, i, C) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) \in C THEN i ELSE Find(s, i + 1, C)
\* the position after the text quoted by q whose content starts at i; doubled quotes belong to it (0: unterminated)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, q) == LET j == Find(s, i, {q})
                   IN IF j = 0 THEN 0
                      ELSE IF At(s, j + 1) = q
                        THEN LET k == Quoted(s, j + 2, q) IN IF k = 0 THEN j + 1 ELSE k
                      ELSE j + 1
RECURSIVE BlockEnd(_, _)
BlockEnd(s, i) == LET j == Find(s, i, {"*"}) IN IF j = 0 THEN 0 ELSE IF At(s, j + 1) = "/" THEN j + 2 ELSE BlockEnd(s, j + 1)
\* the position after a line comment whose text starts at i (0: a carriage return without line feed ends no comment)
LineEnd(s, i) == LET j == Find(s, i, {"\r", "\n"})
                 IN IF j = 0 THEN Len(s) + 1
                    ELSE IF At(s, j) = "\n" THEN j + 1
                    ELSE IF At(s, j + 1) = "\n" THEN j + 2 ELSE 0
\* the end of an identifier starting at i (0: none)
IdentEnd(s, i) ==
  LET c == At(s, i)
  IN IF c = "" THEN 0
     ELSE IF c \in WordStart THEN Skip(s, i + 1, WordPart)
     ELSE IF c \in {"\"", "`"} THEN Quoted(s, i + 1, c)
     ELSE IF c = "[" THEN LET j == Find(s, i + 1, {"]"}) IN IF j = 0 THEN 0 ELSE j + 1
     ELSE 0
NumEnd(s, i) ==
  LET c == At(s, i)
      m == IF c \in Digits
           THEN LET j == Skip(s, i, Digits) IN IF At(s, j) = "." THEN Skip(s, j + 1, Digits) ELSE j
           ELSE Skip(s, i + 1, Digits)
      e == IF At(s, m) \in {"e", "E"} THEN (IF At(s, m + 1) \in {"+", "-"} THEN m + 2 ELSE m + 1) ELSE 0
      x == IF c = "0" /\ At(s, i + 1) \in {"x", "X"} /\ At(s, i + 2) \in HexDigits THEN Skip(s, i + 2, HexDigits) ELSE 0
      d == IF e > 0 /\ At(s, e) \in Digits THEN Skip(s, e, Digits) ELSE m
  IN IF x > d THEN x ELSE d
Token(c, s, i, j) == [c |-> c, v |-> SubSeq(s, i, j - 1), e |-> j]
Gap(j) == [c |-> "GAP", v |-> "", e |-> j]
\* the token (or gap) at position i
Scan(s, i) ==
  LET c == At(s, i)
      d == At(s, i + 1)
      two == c \o d
      bad == Token("BAD", s, i, i + 1)
      word == LET j == Skip(s, i + 1, WordPart) w == Up(SubSeq(s, i, j - 1)) IN Token(IF w \in Keywords THEN w ELSE "IDENT", s, i, j)
      op == IF d # "" /\ two \in Puncts THEN Token(two, s, i, i + 2) ELSE IF c \in Puncts THEN Token(c, s, i, i + 1) ELSE bad
  IN CASE c \in Spaces -> Gap(i + 1)
       [] c \in {"x", "X"} /\ d = "'" -> LET j == Quoted(s, i + 2, "'") IN IF j > 0 THEN Token("BLOB", s, i, j) ELSE word
       [] c \in WordStart -> word
       [] c \in Digits \/ (c = "." /\ d \in Digits) -> Token("NUM", s, i, NumEnd(s, i))
       [] c \in {"\"", "`", "["} -> LET j == IdentEnd(s, i) IN IF j > 0 THEN Token("IDENT", s, i, j) ELSE bad
       [] c = "'" -> LET j == Quoted(s, i + 1, "'") IN IF j > 0 THEN Token("STR", s, i, j) ELSE bad
       [] c = "-" /\ d = "-" -> LET j == LineEnd(s, i + 2) IN IF j > 0 THEN Gap(j) ELSE op
       [] c = "/" /\ d = "*" -> LET j == BlockEnd(s, i + 2) IN IF j > 0 THEN Gap(j) ELSE op
       [] c = "?" -> Token("BIND", s, i, Skip(s, i + 1, Digits))
       [] c = "$" -> LET j == IdentEnd(s, i + 1) IN Token("BIND", s, i, IF j > 0 THEN j ELSE Skip(s, i + 1, Digits))
       [] c = ":" -> LET j == IdentEnd(s, i + 1) IN IF j > 0 THEN Token("BIND", s, i, j) ELSE bad
       [] c = "@" -> IF d = "@" /\ IdentEnd(s, i + 2) > 0 THEN Token("SYSVAR", s, i, IdentEnd(s, i + 2))
                     ELSE IF IdentEnd(s, i + 1) > 0 THEN Token("USERVAR", s, i, IdentEnd(s, i + 1)) ELSE op
       [] OTHER -> op
RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE LET t == Scan(s, i) IN LexFrom(s, t.e, IF t.c = "GAP" THEN acc ELSE Append(acc, [c |-> t.c, v |-> t.v]))
Lex(s) == LexFrom(s, 1, <<>>)
Classes(ts) == [j \in 1..Len(ts) |-> ts[j].c]
=============================================================================
