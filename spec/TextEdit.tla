------------------------------ MODULE TextEdit ------------------------------
(***************************************************************************)
(* Character-level edits of a text.  An edit is [op, at, ch]: at is a      *)
(* position in thousandths of the length of the text, ch the text put in.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

EditOps == {"del", "ins", "rep", "dup", "cut", "tail", "swap", "span", "many"}
EditTexts == {"'", "\"", "`", "[", "]", "(", ")", ",", ";", ".", "-", "--", "/*", "*/", "*", "/", "=", "<", ">", "!", "?", "$", ":", "@", "@@", "x'", " ", "\n", "\r", "\t",
              "0", "9", "1e", "0x", "a", "_", "#", "&", "|", "~", "^", "%", "+", "\\", "{", "}", "é", "日", "SELECT", " FROM ", " AND ", " OR ", " NOT ", " NULL ", " AS ", ";;", "''", "()"}
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN "" ELSE t \o Times(t, n - 1)
Place(s, at) == 1 + (at * Len(s)) \div 1000           \* 1..Len(s) + 1
Edited(s, e) ==
  LET p == Place(s, e.at)
      n == Len(s)
      from(k) == IF k > n THEN "" ELSE SubSeq(s, k, n)
      upto(k) == IF k < 1 THEN "" ELSE SubSeq(s, 1, k)
      one == IF p <= n THEN SubSeq(s, p, p) ELSE ""
  IN CASE e.op = "del" -> upto(p - 1) \o from(p + 1)
       [] e.op = "ins" -> upto(p - 1) \o e.ch \o from(p)
       [] e.op = "rep" -> upto(p - 1) \o e.ch \o from(p + 1)
       [] e.op = "dup" -> upto(p - 1) \o one \o from(p)
       [] e.op = "cut" -> upto(p - 1)
       [] e.op = "tail" -> from(p)
       [] e.op = "swap" -> IF p < n THEN upto(p - 1) \o SubSeq(s, p + 1, p + 1) \o one \o from(p + 2) ELSE s
       [] e.op = "many" -> upto(p - 1) \o Times(e.ch, 60) \o from(p)
       [] e.op = "span" -> upto(p - 1) \o from(p + 5)
=============================================================================
