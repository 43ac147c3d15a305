------------------------------- MODULE Literal -------------------------------
(***************************************************************************)
(* Contents of string literals, texts of numbers and plain identifiers     *)
(* (C05).  A content is a sequence of characters; it is written between    *)
(* quotes, a quote of the content doubled.  The machine writes a content   *)
(* character by character (exhaustively up to MaxLen, or at random) next to*)
(* the text that stands for it.  The invariants show that reading the text *)
(* gives the content back whatever follows it, and that the number and     *)
(* identifier texts are one token.                                         *)
(***************************************************************************)
EXTENDS SqlLex, Integers, Json

CONSTANTS Kinds, MaxLen, Random, Emit
VARIABLES kd, c, text, more, done
vars == <<kd, c, text, more, done>>

\* characters by name; those which cannot be written here stand for a letter
Chars == [q |-> "'", dq |-> "\"", bq |-> "`", semi |-> ";", dash |-> "-", star |-> "*", slash |-> "/", nl |-> "\n", cr |-> "\r", tab |-> "\t", bs |-> "\\",
          qm |-> "?", dol |-> "$", colon |-> ":", at |-> "@", pct |-> "%", sp |-> " ", a |-> "a", A |-> "A", x |-> "x", n |-> "n", one |-> "1", zero |-> "0", comma |-> ",", lp |-> "(", rp |-> ")",
          eq |-> "=", dot |-> ".", us |-> "_", lb |-> "[", rb |-> "]", brace |-> "{", hash |-> "#", amp |-> "&",
          vt |-> "a", nul |-> "a", ctl |-> "a", del |-> "a", eacute |-> "a", cjk |-> "a", emoji |-> "a", bom |-> "a", nbsp |-> "a", ls |-> "a", comb |-> "a", last |-> "a", rquo |-> "a"]
Names == DOMAIN Chars
Esc(ch) == IF ch = "q" THEN "''" ELSE Chars[ch]
NumChars == {"0", "1", "9", ".", "e", "E", "-", "+", "x", "X", "a", "F"}
WordChars == {"a", "z", "A", "Z", "_", "0", "9", "x", "e", "s", "E"}
D(S) == RandomElement(IF done = done THEN S ELSE {})

Init == /\ kd \in Kinds /\ c = <<>> /\ text = "" /\ done = FALSE
        /\ more = IF Random THEN -1 ELSE MaxLen
Setup == more = -1 /\ more' = TLCEval(RandomElement(IF done = done THEN 1..MaxLen ELSE {})) /\ UNCHANGED <<kd, c, text, done>>
Pick(S) == IF Random THEN {TLCEval(D(S))} ELSE S
WriteStr == kd = "s" /\ more > 0 /\ \E ch \in Pick(Names) : c' = Append(c, ch) /\ text' = text \o Esc(ch)
WriteNum == kd = "n" /\ more > 0 /\ \E ch \in Pick(NumChars) : c' = Append(c, ch) /\ text' = text \o ch
WriteId == kd = "i" /\ more > 0 /\ \E ch \in Pick(WordChars) : c' = Append(c, ch) /\ text' = text \o ch
Write == ~done /\ (WriteStr \/ WriteNum \/ WriteId) /\ more' = more - 1 /\ UNCHANGED <<kd, done>>
\* number: optional sign, then exactly one number token
Unsigned(t) == IF At(t, 1) \in {"-", "+"} THEN SubSeq(t, 2, Len(t)) ELSE t
OneToken(t, cls) == LET l == Lex(t) IN Len(l) = 1 /\ l[1].c = cls /\ l[1].v = t
Good == CASE kd = "s" -> TRUE [] kd = "n" -> text # "" /\ OneToken(Unsigned(text), "NUM") [] OTHER -> text # "" /\ OneToken(text, "IDENT")
Done == /\ ~done /\ more >= 0 /\ (Random => more = 0 \/ (kd = "n" /\ Good)) /\ Good
        /\ done' = TRUE /\ UNCHANGED <<kd, c, text, more>>
        /\ IF Emit THEN PrintT("VEC " \o ToJson([kind |-> kd, c |-> c])) ELSE TRUE
Next == Setup \/ Write \/ Done
Spec == Init /\ [][Next]_vars

RECURSIVE Raw(_)
Raw(s) == IF s = <<>> THEN "" ELSE Chars[Head(s)] \o Raw(Tail(s))
RECURSIVE Unescape(_)
Unescape(t) == IF t = "" THEN "" ELSE IF At(t, 1) = "'" THEN "'" \o Unescape(SubSeq(t, 3, Len(t))) ELSE At(t, 1) \o Unescape(SubSeq(t, 2, Len(t)))
Follow == {"", ")", ",", " ", ";", "--", "/**/", "\n", "x", "1", "\""}
\* the literal is read back, and what follows is not part of it
ReadsBack == (kd = "s" /\ done) =>
  /\ Unescape(text) = Raw(c)
  /\ \A f \in Follow : LET t == Scan("'" \o text \o "'" \o f, 1) IN t.c = "STR" /\ t.v = "'" \o text \o "'"
OneWord == (kd # "s" /\ done) => Good
=============================================================================
