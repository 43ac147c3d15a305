-------------------------------- MODULE Errs --------------------------------
(***************************************************************************)
(* SQLSTATE codes and classes, error constructors and the errors of failing*)
(* operations (C20).                                                       *)
(*                                                                         *)
(* The texts of codes are explored as a graph: from every standard code a  *)
(* step changes, drops or adds one character.  Lookup gives the text every *)
(* reached code must report.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SqlStateData

CONSTANTS MaxEdits, Chars, Subjects, Emit
VARIABLES kind, val, edits
vars == <<kind, val, edits>>

Known(T, c) == \E i \in 1..Len(T) : T[i].c = c
Lookup(T, c, unknown) == IF Known(T, c) THEN T[CHOOSE i \in 1..Len(T) : T[i].c = c].t ELSE unknown
TextOf(k, c) == IF k = "code" THEN Lookup(Codes, c, "Unknown Code") ELSE Lookup(Classes, c, "Unknown Class")

Cut(s, a, b) == IF a > b THEN "" ELSE SubSeq(s, a, b)
Edited(s) ==
  {Cut(s, 1, i - 1) \o c \o Cut(s, i + 1, Len(s)) : i \in 1..Len(s), c \in Chars}
  \cup {Cut(s, 1, i - 1) \o Cut(s, i + 1, Len(s)) : i \in 1..Len(s)}
  \cup {Cut(s, 1, i) \o c \o Cut(s, i + 1, Len(s)) : i \in 0..Len(s), c \in Chars}

Init == /\ edits = 0
        /\ \/ kind = "code" /\ val \in {Codes[i].c : i \in 1..Len(Codes)}
           \/ kind = "class" /\ val \in {Classes[i].c : i \in 1..Len(Classes)}
Edit == edits < MaxEdits /\ edits' = edits + 1 /\ kind' = kind /\ \E s \in Edited(val) : val' = s
Spec == Init /\ [][Edit]_vars
\* every distinct text once
Out == Emit => PrintT("VEC " \o ToJson([kind |-> kind, name |-> val, subject |-> ""]))
View == <<kind, val>>

(***************************************************************************)
(* The table itself: values and texts are unique, and the first two        *)
(* characters of a code are its class.                                     *)
(***************************************************************************)
ASSUME \A i, j \in 1..Len(Codes) : i # j => Codes[i].c # Codes[j].c /\ Codes[i].t # Codes[j].t /\ Codes[i].n # Codes[j].n
ASSUME \A i, j \in 1..Len(Classes) : i # j => Classes[i].c # Classes[j].c /\ Classes[i].t # Classes[j].t /\ Classes[i].n # Classes[j].n
ASSUME \A i \in 1..Len(Codes) : Len(Codes[i].c) = 5 /\ Known(Classes, SubSeq(Codes[i].c, 1, 2))

(***************************************************************************)
(* Sentinels of the constructors and of failing operations; names: the     *)
(* message includes the subject.                                           *)
(***************************************************************************)
S(n, is, names) == [n |-> n, is |-> is, names |-> names]
Ctors == {
  S("NewErrNotImplemented", "errors.NotImplemented", TRUE), S("NewErrNotExist", "errors.NotExist", TRUE),
  S("NewErrExist", "errors.Exist", TRUE), S("NewErrNotSupported", "errors.NotSupported", TRUE),
  S("NewErrDatabaseNotExist", "errors.NotExist", TRUE), S("NewErrTableNotExist", "errors.NotExist", TRUE),
  S("NewErrDatabaseExist", "errors.Exist", TRUE), S("NewErrTableExist", "errors.Exist", TRUE),
  S("NewErrColumnNotExist", "errors.NotExist", TRUE), S("NewErrColumnValueNotExist", "errors.NotExist", TRUE),
  S("NewErrGroupByColumnValueNotFound", "errors.NotFound", TRUE), S("NewErrColumnsNotEqual", "errors.NotEqual", TRUE),
  S("NewErrPreparedStatementNotExist", "errors.NotExist", TRUE), S("NewErrPreparedPortalNotExist", "errors.NotExist", TRUE),
  S("NewErrMultiplePreparedStatementNotSupported", "errors.NotSupported", TRUE), S("NewErrMultipleTableNotSupported", "errors.NotSupported", TRUE),
  S("NewErrNoTable", "", TRUE),
  S("query.NewErrStatementInvalid", "query.Invalid", TRUE), S("query.NewErrStatementNotSupported", "query.NotSupported", TRUE),
  S("fn.NewErrNotSupportedFunction", "fn.NotSupported", TRUE)}
Sites == {
  S("parse empty", "parser.EmptyQuery", FALSE), S("parse unsupported condition", "errors.NotSupported", TRUE), S("parse unsupported value", "errors.NotSupported", TRUE),
  S("add connection", "net.Exist", FALSE), S("update connection", "net.NotExist", FALSE), S("update to connection", "net.Exist", FALSE),
  S("lookup column", "query.NotFound", TRUE), S("drop column", "query.NotFound", TRUE), S("lookup index", "query.NotFound", TRUE),
  S("drop index", "query.NotFound", TRUE), S("column at", "query.NotFound", FALSE), S("column position", "query.NotFound", TRUE),
  S("set schema", "query.NotFound", TRUE), S("column value", "query.Invalid", TRUE), S("data type", "query.Invalid", TRUE),
  S("rename", "errors.NotImplemented", TRUE), S("executor", "fn.NotSupported", TRUE), S("aggregator", "fn.NotSupported", TRUE),
  S("arguments", "fn.Invalid", FALSE), S("negative", "fn.NegativeValue", FALSE), S("zero divisor", "fn.Invalid", FALSE),
  S("row by name", "errors.NotExist", FALSE), S("row at", "errors.NotExist", FALSE), S("no row", "errors.NoRows", FALSE),
  S("result column", "query.NotFound", TRUE), S("bind", "stmt.NotFound", TRUE), S("system column", "system.NotFound", TRUE),
  S("aggregate column", "fn.NotFound", TRUE), S("aggregate value", "fn.Invalid", FALSE)}
Of(k, n) == CHOOSE s \in (IF k = "ctor" THEN Ctors ELSE Sites) : s.n = n
CInit == /\ edits = 0
         /\ \/ kind = "ctor" /\ val \in {s.n : s \in Ctors}
            \/ kind = "site" /\ val \in {s.n : s \in Sites}
CSpec == CInit /\ [][UNCHANGED vars]_vars
COut == Emit => \A x \in Subjects : PrintT("VEC " \o ToJson([kind |-> kind, name |-> val, subject |-> x]))
=============================================================================
