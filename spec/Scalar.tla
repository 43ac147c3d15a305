-------------------------------- MODULE Scalar --------------------------------
(***************************************************************************)
(* Scalar functions and operators of sql/fn (C12): how a name is resolved, *)
(* what a call returns, and identities between functions whose values are  *)
(* not rational.                                                           *)
(*                                                                         *)
(* A value is [t, p, q, s]: "num" p/q, "str" s (a sequence of characters), *)
(* "null" or "bad" (anything that is not a number).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, Names, Mutations, Cases, Arities, Nums, Chars, StrLen, Hows, Idents, Emit
VARIABLES cfg, hist, done
vars == <<cfg, hist, done>>

NumV(p, q) == [t |-> "num", p |-> p, q |-> q, s |-> <<>>]
StrV(s)    == [t |-> "str", p |-> 0, q |-> 1, s |-> s]
NullV      == [t |-> "null", p |-> 0, q |-> 1, s |-> <<>>]
BadV       == [t |-> "bad", p |-> 0, q |-> 1, s |-> <<>>]

(***************************************************************************)
(* Names.                                                                  *)
(***************************************************************************)
MathNames == {"ABS", "FLOOR", "CEIL", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI"}
StringNames == {"UPPER", "LOWER", "TRIM"}
TimeNames == {"NOW", "CURRENT_TIMESTAMP"}
OpNames == {"+", "-", "*", "/", "%"}
AggrNames == {"SUM", "AVG", "MIN", "MAX", "COUNT"}
ScalarNames == MathNames \cup StringNames \cup TimeNames \cup OpNames
\* the part of a name before its arguments
RECURSIVE Cut(_, _)
Cut(n, k) == IF k > Len(n) THEN n ELSE IF SubSeq(n, k, k) = "(" THEN SubSeq(n, 1, k - 1) ELSE Cut(n, k + 1)
Base(n) == Cut(n, 1)
Known(n) == Base(n) \in ScalarNames
KnownAggr(n) == Base(n) \in AggrNames
Mutate(n, m) ==
  CASE m = "same" -> n
    [] m = "args" -> n \o "(a,b)"
    [] m = "open" -> n \o "("
    [] m = "close" -> n \o ")"
    [] m = "suffix" -> n \o "X"
    [] m = "digit" -> n \o "1"
    [] m = "prefix" -> "X" \o n
    [] m = "twice" -> n \o n
    [] m = "cut" -> SubSeq(n, 1, Len(n) - 1)
    [] m = "tail" -> SubSeq(n, 2, Len(n))
TypeOf(n) == CASE n \in MathNames -> "math" [] n \in StringNames -> "string" [] n \in TimeNames -> "time" [] OTHER -> "arith"

(***************************************************************************)
(* Values of calls.                                                        *)
(***************************************************************************)
Abs(x) == IF x < 0 THEN -x ELSE x
\* quotient and remainder truncated toward zero (q > 0)
FloorDiv(p, q) == p \div q              \* TLA+ \div floors for q > 0
CeilDiv(p, q)  == -((-p) \div q)
TruncDiv(p, q) == IF p >= 0 THEN p \div q ELSE -((-p) \div q)
RoundDiv(p, q) == IF p >= 0 THEN (2 * p + q) \div (2 * q) ELSE -((2 * (-p) + q) \div (2 * q))
IsSquare(n) == \E r \in 0..n : r * r = n
Root(n) == CHOOSE r \in 0..n : r * r = n
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Log10Of(_)
Log10Of(n) == IF n = 1 THEN 0 ELSE 1 + Log10Of(n \div 10)
IsTen(n) == n \in {1, 10, 100, 1000, 10000, 100000}

UpperPairs == <<<<"a", "A">>, <<"z", "Z">>, <<"é", "É">>, <<"я", "Я">>, <<"m", "M">>>>
Up(c)  == IF \E j \in 1..Len(UpperPairs) : UpperPairs[j][1] = c THEN UpperPairs[CHOOSE j \in 1..Len(UpperPairs) : UpperPairs[j][1] = c][2] ELSE c
Low(c) == IF \E j \in 1..Len(UpperPairs) : UpperPairs[j][2] = c THEN UpperPairs[CHOOSE j \in 1..Len(UpperPairs) : UpperPairs[j][2] = c][1] ELSE c
Space == {" ", "TAB", "NL", "CR"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Space THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

Yes(v)  == [ok |-> TRUE, v |-> v]
Fail    == [ok |-> FALSE, v |-> NullV]
Num(p, q) == IF q < 0 THEN Yes(NumV(-p, -q)) ELSE Yes(NumV(p, q))
\* not decided by rational arithmetic: any number (identities decide it)
AnyNum  == Yes([NullV EXCEPT !.t = "anynum"])
\* a number between 0 and 1
Unit    == Yes([NullV EXCEPT !.t = "unit"])
PiV     == Yes([NullV EXCEPT !.t = "pi"])
NowV    == Yes([NullV EXCEPT !.t = "time"])
\* out of the scope of the property: anything but a panic
Free    == Yes([NullV EXCEPT !.t = "free"])

Arity(f) == CASE f \in {"POWER", "MOD"} \cup OpNames -> 2
              [] f \in {"RAND", "PI"} -> 0
              [] OTHER -> 1
\* x, y: the arguments p/q
Unary(f, x) ==
  CASE f = "ABS"   -> Num(Abs(x.p), x.q)
    [] f = "FLOOR" -> Num(FloorDiv(x.p, x.q), 1)
    [] f = "CEIL"  -> Num(CeilDiv(x.p, x.q), 1)
    [] f = "ROUND" -> Num(RoundDiv(x.p, x.q), 1)
    [] f = "SQRT"  -> IF x.p < 0 THEN Fail ELSE IF IsSquare(x.p) /\ IsSquare(x.q) THEN Num(Root(x.p), Root(x.q)) ELSE AnyNum
    [] f = "LOG"   -> IF x.p <= 0 THEN Fail ELSE IF x.p = x.q THEN Num(0, 1) ELSE AnyNum
    [] f = "LOG10" -> IF x.p <= 0 THEN Fail
                      ELSE IF IsTen(x.p) /\ IsTen(x.q) THEN Num(Log10Of(x.p) - Log10Of(x.q), 1) ELSE AnyNum
    [] f = "EXP"   -> IF x.p = 0 THEN Num(1, 1) ELSE AnyNum
    [] f \in {"SIN", "TAN"} -> IF x.p = 0 THEN Num(0, 1) ELSE AnyNum
    [] f = "COS"   -> IF x.p = 0 THEN Num(1, 1) ELSE AnyNum
PowNat(b, e) == Num(Pow(b.p, e), Pow(b.q, e))
Power(b, e) ==
  IF e.q = 1
  THEN IF e.p >= 0 THEN PowNat(b, e.p)
       ELSE IF b.p = 0 THEN Fail ELSE Num(Pow(b.q, -e.p), Pow(b.p, -e.p))
  ELSE IF b.p < 0 THEN Fail
  ELSE IF b.p = 0 THEN IF e.p < 0 THEN Fail ELSE Num(0, 1)
  ELSE IF e.p = 1 /\ e.q = 2 /\ IsSquare(b.p) /\ IsSquare(b.q) THEN Num(Root(b.p), Root(b.q))
  ELSE AnyNum
Binary(f, x, y) ==
  CASE f = "+" -> Num(x.p * y.q + y.p * x.q, x.q * y.q)
    [] f = "-" -> Num(x.p * y.q - y.p * x.q, x.q * y.q)
    [] f = "*" -> Num(x.p * y.p, x.q * y.q)
    [] f = "/" -> IF y.p = 0 THEN Fail ELSE Num(x.p * y.q, x.q * y.p)
    \* the operator works on the integer parts, the function on the numbers
    [] f = "%" -> LET a == TruncDiv(x.p, x.q) b == TruncDiv(y.p, y.q)
                  IN IF b = 0 THEN Fail ELSE LET r == Abs(a) % Abs(b) IN Num(IF a < 0 THEN -r ELSE r, 1)
    [] f = "MOD" -> IF y.p = 0 THEN Fail
                    ELSE LET a == x.p * y.q b == y.p * x.q IN LET r == Abs(a) % Abs(b)
                         IN Num(IF a < 0 THEN -r ELSE r, x.q * y.q)
    [] f = "POWER" -> Power(x, y)
CallStr(f, s) == CASE f = "UPPER" -> Yes(StrV([j \in 1..Len(s) |-> Up(s[j])]))
                   [] f = "LOWER" -> Yes(StrV([j \in 1..Len(s) |-> Low(s[j])]))
                   [] f = "TRIM"  -> Yes(StrV(TrimL(TrimR(s))))
Call(f, args) ==
  IF f \in TimeNames THEN NowV
  ELSE IF Len(args) # Arity(f) THEN Fail
  ELSE IF f \in StringNames THEN IF args[1].t = "str" THEN CallStr(f, args[1].s) ELSE Free
  ELSE IF \E j \in 1..Len(args) : args[j].t # "num" THEN Fail
  ELSE CASE f = "RAND" -> Unit
         [] f = "PI" -> PiV
         [] Len(args) = 1 -> Unary(f, args[1])
         [] OTHER -> Binary(f, args[1], args[2])

(***************************************************************************)
(* Identities: both sides are evaluated with the real functions.  A side is*)
(* in postfix order; "x" and "y" are the numbers of the operation.         *)
(***************************************************************************)
F(f)  == [f |-> f, p |-> 0, q |-> 1]
C(p, q) == [f |-> "", p |-> p, q |-> q]
X == F("x")
Y == F("y")
Sides(i) ==
  CASE i = "exp+"   -> <<<<X, F("EXP"), Y, F("EXP"), F("*")>>, <<X, Y, F("+"), F("EXP")>>>>
    [] i = "logexp" -> <<<<X, F("EXP"), F("LOG")>>, <<X>>>>
    [] i = "explog" -> <<<<X, F("ABS"), C(1, 4), F("+"), F("LOG"), F("EXP")>>, <<X, F("ABS"), C(1, 4), F("+")>>>>
    [] i = "sin+"   -> <<<<X, Y, F("+"), F("SIN")>>, <<X, F("SIN"), Y, F("COS"), F("*"), X, F("COS"), Y, F("SIN"), F("*"), F("+")>>>>
    [] i = "cos+"   -> <<<<X, Y, F("+"), F("COS")>>, <<X, F("COS"), Y, F("COS"), F("*"), X, F("SIN"), Y, F("SIN"), F("*"), F("-")>>>>
    [] i = "tan"    -> <<<<X, F("TAN"), X, F("COS"), F("*")>>, <<X, F("SIN")>>>>
    [] i = "pyth"   -> <<<<X, F("SIN"), C(2, 1), F("POWER"), X, F("COS"), C(2, 1), F("POWER"), F("+")>>, <<C(1, 1)>>>>
    [] i = "log10"  -> <<<<X, F("EXP"), F("LOG10"), C(10, 1), F("LOG"), F("*")>>, <<X>>>>
    [] i = "ten"    -> <<<<C(10, 1), X, F("POWER"), F("LOG10")>>, <<X>>>>
    [] i = "sqrt"   -> <<<<X, F("ABS"), F("SQRT"), C(2, 1), F("POWER")>>, <<X, F("ABS")>>>>
    [] i = "power"  -> <<<<X, F("ABS"), C(1, 4), F("+"), Y, F("POWER")>>, <<Y, X, F("ABS"), C(1, 4), F("+"), F("LOG"), F("*"), F("EXP")>>>>
    [] i = "sinpi"  -> <<<<F("PI"), C(6, 1), F("/"), F("SIN")>>, <<C(1, 2)>>>>
    [] i = "cospi"  -> <<<<F("PI"), C(3, 1), F("/"), F("COS")>>, <<C(1, 2)>>>>
    [] i = "tanpi"  -> <<<<F("PI"), C(4, 1), F("/"), F("TAN")>>, <<C(1, 1)>>>>
    [] i = "exp1"   -> <<<<C(1, 1), F("EXP")>>, <<C(49171, 18089)>>>>
    [] i = "pi"     -> <<<<F("PI")>>, <<C(312689, 99532)>>>>
    [] i = "div"    -> <<<<X, Y, F("ABS"), C(1, 4), F("+"), F("/"), Y, F("ABS"), C(1, 4), F("+"), F("*")>>, <<X>>>>

(***************************************************************************)
(* Histories: calls of one executor, or one identity.                      *)
(***************************************************************************)
R(S, d) == RandomElement(IF done = done THEN S ELSE {})
NumVals == {NumV(n[1], n[2]) : n \in Nums}
RECURSIVE RandStr(_, _)
RandStr(n, d) == IF n = 0 THEN <<>> ELSE <<R(Chars, d)>> \o RandStr(n - 1, d)
RandVal(f, d) == IF f \in StringNames THEN StrV(RandStr(R(0..StrLen, d), d))
                 ELSE IF R(1..12, d) = 1 THEN R({NullV, BadV}, d) ELSE R(NumVals, d)
RECURSIVE RandVals(_, _, _)
RandVals(f, n, d) == IF n = 0 THEN <<>> ELSE <<RandVal(f, d)>> \o RandVals(f, n - 1, d)
\* exponents stay small so that the specification's integers do not overflow
Fits(f, args) == f = "POWER" /\ Len(args) = 2 =>
                   Abs(args[2].p) <= 3 /\ args[2].q <= 2 /\ Abs(args[1].p) <= 100 /\ args[1].q <= 10
\* names: the arguments the executor was created with (for named calls)
Op(how, args) == [how |-> how, args |-> args, id |-> "", lhs |-> <<>>, rhs |-> <<>>]
IdOp(i, x, y) == [how |-> "identity", args |-> <<x, y>>, id |-> i, lhs |-> Sides(i)[1], rhs |-> Sides(i)[2]]
Cfg(name, cm, n) == [name |-> name, cm |-> cm, n |-> n]
Init == /\ \E n \in Names, m \in Mutations, c \in Cases, a \in Arities : cfg = Cfg(Mutate(n, m), c, a)
        /\ hist = <<>> /\ done = FALSE
FnOf(c) == Base(c.name)
\* how a call passes its arguments: by name only as many as the executor has
HowOk(how, n, c) == CASE how = "map" -> n = c.n [] how = "one" -> n = 1 [] how = "nil" -> n = 0 [] OTHER -> TRUE
Act == /\ Len(hist) < MaxOps /\ Known(cfg.name)
       /\ \E n \in Arities, how \in Hows :
            /\ HowOk(how, n, cfg)
            /\ \E args \in [1..n -> IF FnOf(cfg) \in StringNames THEN {StrV(s) : s \in [1..StrLen -> Chars]} ELSE NumVals \cup {NullV, BadV}] :
                 Fits(FnOf(cfg), args) /\ hist' = Append(hist, Op(how, args)) /\ UNCHANGED <<cfg, done>>
RandomAct ==
  /\ Len(hist) < MaxOps /\ Known(cfg.name)
  /\ \E n \in {TLCEval(LET d == Len(hist) IN IF R(1..6, d) = 1 THEN R(Arities, d) ELSE Arity(FnOf(cfg)))} :
     \E how \in {TLCEval(R({h \in Hows : HowOk(h, n, cfg)}, Len(hist)))} :
     \E args \in {TLCEval(RandVals(FnOf(cfg), n, Len(hist)))} :
       IF Fits(FnOf(cfg), args) THEN hist' = Append(hist, Op(how, args)) /\ UNCHANGED <<cfg, done>> ELSE UNCHANGED vars
IdAct == /\ hist = <<>>
         /\ \E i \in Idents, x \in NumVals, y \in NumVals : hist' = <<IdOp(i, x, y)>> /\ UNCHANGED <<cfg, done>>
EmitIt == done' = TRUE /\ UNCHANGED <<cfg, hist>> /\ PrintT("VEC " \o ToJson([cfg |-> cfg, ops |-> hist]))
Done == Emit /\ ~done /\ (Len(hist) = MaxOps \/ ~Known(cfg.name) \/ (hist # <<>> /\ hist[1].how = "identity")) /\ EmitIt
Spec == Init /\ [][Act \/ Done]_vars
RandomSpec == Init /\ [][RandomAct \/ Done]_vars
IdentSpec == Init /\ [][IdAct \/ Done]_vars

(***************************************************************************)
(* Algebra the definitions above must satisfy (checked by TLC on every     *)
(* enumerated call).                                                       *)
(***************************************************************************)
Le(a, b) == a.p * b.q <= b.p * a.q
Eq(a, b) == a.p * b.q = b.p * a.q
Laws ==
  \A k \in 1..Len(hist) :
    LET f == FnOf(cfg) a == hist[k].args r == Call(f, a)
    IN (hist[k].how # "identity" /\ r.ok /\ r.v.t = "num" /\ \A j \in 1..Len(a) : a[j].t = "num") =>
       CASE f = "FLOOR" -> r.v.q = 1 /\ Le(r.v, a[1]) /\ ~Le(NumV(r.v.p + 1, 1), a[1])
         [] f = "CEIL"  -> r.v.q = 1 /\ Le(a[1], r.v) /\ ~Le(a[1], NumV(r.v.p - 1, 1))
         [] f = "ROUND" -> LET d == NumV(a[1].p - r.v.p * a[1].q, a[1].q) IN Le(NumV(Abs(d.p), d.q), NumV(1, 2))
         [] f = "ABS"   -> r.v.p >= 0 /\ (Eq(r.v, a[1]) \/ Eq(r.v, NumV(-a[1].p, a[1].q)))
         [] f = "SQRT"  -> Eq(NumV(r.v.p * r.v.p, r.v.q * r.v.q), a[1])
         [] f = "/"     -> Eq(Call("*", <<r.v, a[2]>>).v, a[1])
         [] f = "-"     -> Eq(Call("+", <<r.v, a[2]>>).v, a[1])
         [] f = "MOD"   -> /\ ~Le(NumV(Abs(a[2].p), a[2].q), NumV(Abs(r.v.p), r.v.q))
                           /\ Call("/", <<Call("-", <<a[1], r.v>>).v, a[2]>>).v.p % Call("/", <<Call("-", <<a[1], r.v>>).v, a[2]>>).v.q = 0
         [] OTHER -> TRUE
=============================================================================
