----------------------------- MODULE DataTypes -----------------------------
(***************************************************************************)
(* Data types and their names (C19).  Names are explored as a graph: from  *)
(* every SQL name in upper, lower and mixed case a step changes, drops or  *)
(* adds one character.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEdits, Chars, Emit
VARIABLES val, edits
vars == <<val, edits>>

\* constant, SQL name
T(n, s, l) == [n |-> n, s |-> s, l |-> l]
Types == <<
  T("BigIntType", "BIGINT", "bigint"), T("BinaryType", "BINARY", "binary"), T("BitType", "BIT", "bit"), T("BlobType", "BLOB", "blob"),
  T("BooleanType", "BOOLEAN", "boolean"), T("CharType", "CHAR", "char"), T("CharacterType", "CHARACTER", "character"), T("ClobType", "CLOB", "clob"),
  T("DateType", "DATE", "date"), T("DateTimeType", "DATETIME", "datetime"), T("DecimalType", "DECIMAL", "decimal"), T("DoubleType", "DOUBLE", "double"),
  T("DoublePrecisionType", "DOUBLE PRECISION", "double precision"), T("FloatType", "FLOAT", "float"), T("IntType", "INT", "int"),
  T("IntegerType", "INTEGER", "integer"), T("LongBlobType", "LONGBLOB", "longblob"), T("LongTextType", "LONGTEXT", "longtext"),
  T("MediumBlobType", "MEDIUMBLOB", "mediumblob"), T("MediumIntType", "MEDIUMINT", "mediumint"), T("MediumTextType", "MEDIUMTEXT", "mediumtext"),
  T("NumericType", "NUMERIC", "numeric"), T("RealType", "REAL", "real"), T("SetType", "SET", "set"), T("SmallIntType", "SMALLINT", "smallint"),
  T("TextType", "TEXT", "text"), T("TimeType", "TIME", "time"), T("TimeStampType", "TIMESTAMP", "timestamp"), T("TinyBlobType", "TINYBLOB", "tinyblob"),
  T("TinyIntType", "TINYINT", "tinyint"), T("TinyTextType", "TINYTEXT", "tinytext"), T("VarBinaryType", "VARBINARY", "varbinary"),
  T("VarCharType", "VARCHAR", "varchar"), T("VarCharacterType", "VARCHARACTER", "varcharacter"), T("YearType", "YEAR", "year"),
  T("SerialType", "SERIAL", "serial"), T("BigSerialType", "BIGSERIAL", "bigserial"), T("SmallSerialType", "SMALLSERIAL", "smallserial"),
  T("NameType", "NAME", "name")>>
ASSUME \A i, j \in 1..Len(Types) : i # j => Types[i].n # Types[j].n /\ Types[i].s # Types[j].s

\* upper case of a name, letter by letter
Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpC(c) == IF \E i \in 1..26 : SubSeq(Low, i, i) = c THEN LET i == CHOOSE i \in 1..26 : SubSeq(Low, i, i) = c IN SubSeq(Upp, i, i) ELSE c
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE UpC(SubSeq(s, 1, 1)) \o (IF Len(s) = 1 THEN "" ELSE Upper(SubSeq(s, 2, Len(s))))
\* the names a type answers to: its name, also without the space
Names(i) == {Types[i].s} \cup (IF Types[i].s = "DOUBLE PRECISION" THEN {"DOUBLEPRECISION"} ELSE {})
AllNames == UNION {Names(i) : i \in 1..Len(Types)}
TypeOf(s) == LET u == Upper(s) IN IF u \in AllNames THEN Types[CHOOSE i \in 1..Len(Types) : u \in Names(i)].n ELSE "error"
NameOf(n) == IF \E i \in 1..Len(Types) : Types[i].n = n THEN Types[CHOOSE i \in 1..Len(Types) : Types[i].n = n].s ELSE ""

Cut(s, a, b) == IF a > b THEN "" ELSE SubSeq(s, a, b)
Edited(s) ==
  {Cut(s, 1, i - 1) \o c \o Cut(s, i + 1, Len(s)) : i \in 1..Len(s), c \in Chars}
  \cup {Cut(s, 1, i - 1) \o Cut(s, i + 1, Len(s)) : i \in 1..Len(s)}
  \cup {Cut(s, 1, i) \o c \o Cut(s, i + 1, Len(s)) : i \in 0..Len(s), c \in Chars}
\* upper letters up to position i, then lower letters
Mixed(t) == {Cut(t.s, 1, i) \o Cut(t.l, i + 1, Len(t.l)) : i \in 0..Len(t.l)} \cup {Cut(t.l, 1, i) \o Cut(t.s, i + 1, Len(t.s)) : i \in 0..Len(t.l)}
Init == edits = 0 /\ val \in UNION {Mixed(Types[i]) : i \in 1..Len(Types)} \cup {"DOUBLEPRECISION", "DoublePrecision", "", " ", "(", "INT(10)", "UNKNOWN", "NULL"}
\* edits start from the plain names
Edit == /\ edits < MaxEdits /\ (edits > 0 \/ val \in AllNames \cup {Types[i].l : i \in 1..Len(Types)})
        /\ edits' = edits + 1 /\ \E s \in Edited(val) : val' = s
Spec == Init /\ [][Edit]_vars
View == val
Out == Emit => PrintT("VEC " \o ToJson([kind |-> "name", name |-> val]))

(***************************************************************************)
(* Types of Go values and of functions.                                    *)
(***************************************************************************)
V(k, t) == [k |-> k, t |-> t]
Values == {V("int8", "TinyIntType"), V("uint8", "TinyIntType"), V("int16", "SmallIntType"), V("uint16", "SmallIntType"), V("int32", "IntType"),
           V("uint32", "IntType"), V("int64", "BigIntType"), V("uint64", "BigIntType"), V("int", "IntType"), V("uint", "IntType"),
           V("float32", "FloatType"), V("float64", "DoubleType"), V("bool", "BooleanType"), V("string", "VarCharType"), V("bytes", "BlobType"),
           V("time", "TimeStampType"), V("timeptr", "TimeStampType"),
           V("nil", "error"), V("struct", "error"), V("map", "error"), V("slice", "error"), V("func", "error"), V("complex", "error"), V("intptr", "error")}
Funcs == {V(f, "FloatType") : f \in {"ABS", "FLOOR", "CEIL", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI",
                                     "SUM", "AVG", "MIN", "MAX", "COUNT", "+", "-", "*", "/", "%"}}
         \cup {V(f, "VarCharType") : f \in {"UPPER", "LOWER", "TRIM"}} \cup {V(f, "TimeStampType") : f \in {"NOW", "CURRENT_TIMESTAMP"}}
Want(kind, k) == (CHOOSE v \in (IF kind = "value" THEN Values ELSE Funcs) : v.k = k).t
VInit == edits = 0 /\ val = ""
VSpec == VInit /\ [][UNCHANGED vars]_vars
VOut == Emit => /\ \A v \in Values : PrintT("VEC " \o ToJson([kind |-> "value", name |-> v.k]))
                /\ \A v \in Funcs : PrintT("VEC " \o ToJson([kind |-> "func", name |-> v.k]))
                /\ \A i \in 1..Len(Types) : PrintT("VEC " \o ToJson([kind |-> "type", name |-> Types[i].n]))
                /\ PrintT("VEC " \o ToJson([kind |-> "all", name |-> ""]))
=============================================================================
