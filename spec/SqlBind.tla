------------------------------- MODULE SqlBind -------------------------------
(***************************************************************************)
(* Templates and parameters (C09).  A behaviour derives a script (SqlGen), *)
(* draws parameters and then walks over the script, token by token,        *)
(* replacing literals by placeholders of parameters which fit; bound is    *)
(* what the placeholders then stand for, written at the same time.         *)
(***************************************************************************)
EXTENDS SqlGen, SqlSubst

CONSTANTS Params,    \* numbers of parameters to draw from
          MarkOneIn  \* one in so many literals stays a literal
VARIABLES P, pos, T, bound, marks, depth
bvars == <<ph, tk, st, out, left, todo, P, pos, T, bound, marks, depth>>

StrTypes == {"string"}
IntTypes == {"int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "uint"}
FloatTypes == {"float64", "float32"}
GoTypes == {"string", "time", "bytes", "nil", "true", "false", "limit"} \cup IntTypes \cup FloatTypes
Draws == <<"string", "string", "string", "string", "int", "float", "time", "bytes", "nil", "true", "false", "limit">>
Param(j) == LET k == Draws[R(1..Len(Draws), j)]
            IN CASE k = "string" -> [g |-> "string", sym |-> "s" \o ToString(100 + j)]
                 [] k = "time" -> [g |-> "time", sym |-> "s" \o ToString(100 + j)]
                 [] k = "bytes" -> [g |-> "bytes", sym |-> "x" \o ToString(100 + j)]
                 [] k = "nil" -> [g |-> "nil", sym |-> "NULL"]
                 [] k = "true" -> [g |-> "true", sym |-> "TRUE"]
                 [] k = "false" -> [g |-> "false", sym |-> "FALSE"]
                 [] k = "limit" -> [g |-> R({"int", "int64", "uint", "uint64"}, j), sym |-> "u" \o ToString(100 + j)]
                 [] k = "float" -> [g |-> R(FloatTypes, j), sym |-> "n" \o ToString(100 + j)]
                 [] OTHER -> [g |-> R(IntTypes, j), sym |-> "n" \o ToString(100 + j)]

BInit == Init /\ P = <<>> /\ pos = 0 /\ T = <<>> /\ bound = <<>> /\ marks = 0 /\ depth = 0
Derive == Next /\ UNCHANGED <<P, pos, T, bound, marks, depth>>
Give == /\ ph = "done" /\ pos = 0
        /\ \E n \in Draw(R(Params, 0)) : \E p \in Draw([j \in 1..n |-> Param(j)]) : P' = p
        /\ pos' = 1 /\ UNCHANGED <<ph, tk, st, out, left, todo, T, bound, marks, depth>>
Prev == IF pos = 1 THEN "" ELSE tk[pos - 1]
\* where a value may stand, and where a count
ValueHere == /\ Symbol(tk[pos], "s") \/ Symbol(tk[pos], "n") \/ Symbol(tk[pos], "x")
             /\ Prev \in CmpOps \/ (depth > 0 /\ Prev \in {"(", ","})
CountHere == IsUint(tk[pos]) /\ Prev \in {"LIMIT", "OFFSET"}
Fits(p) == IF CountHere THEN IsUint(p.sym) ELSE ValueHere /\ ~IsUint(p.sym)
Keep == [t |-> tk[pos], b |-> LET n == IF tk[pos] = "?" THEN marks + 1 ELSE IF Symbol(tk[pos], "d") THEN NumOf(tk[pos]) ELSE 0
                              IN IF n \in 1..Len(P) THEN P[n].sym ELSE tk[pos]]
Choices == {Keep}
           \cup {[t |-> "d" \o ToString(k), b |-> P[k].sym] : k \in {k \in 1..Len(P) : Fits(P[k])}}
           \cup (IF marks < Len(P) /\ Fits(P[marks + 1]) THEN {[t |-> "?", b |-> P[marks + 1].sym]} ELSE {})
Pick == IF R(1..MarkOneIn, pos) = 1 \/ Cardinality(Choices) = 1 THEN Keep
        ELSE LET q == {x \in Choices : x.t = "?"} IN IF q # {} /\ R(1..2, pos) = 1 THEN R(q, pos) ELSE R(Choices \ {Keep}, pos)
Walk == /\ ph = "done" /\ pos \in 1..Len(tk)
        /\ \E x \in Draw(Pick) : T' = Append(T, x.t) /\ bound' = Append(bound, x.b) /\ marks' = IF x.t = "?" THEN marks + 1 ELSE marks
        /\ depth' = IF tk[pos] = "(" THEN depth + 1 ELSE IF tk[pos] = ")" THEN depth - 1 ELSE depth
        /\ pos' = pos + 1 /\ UNCHANGED <<ph, tk, st, out, left, todo, P>>
\* a count drawn for a value, by an own placeholder of the script, is no value
Clean == \A j \in 1..Len(T) : LET n == Takes(T, j) IN (n \in 1..Len(P) /\ IsUint(P[n].sym)) => T[j] # tk[j]
Stop == /\ ph = "done" /\ pos = Len(tk) + 1 /\ pos' = pos + 1
        /\ IF Clean THEN PrintT("VEC " \o ToJson([toks |-> T, params |-> P])) ELSE TRUE
        /\ UNCHANGED <<ph, tk, st, out, left, todo, P, T, bound, marks, depth>>
BSpec == BInit /\ [][Derive \/ Give \/ Walk \/ Stop]_bvars

\* the walk and the definition agree on what the placeholders stand for
WalkIsSubst == (ph = "done" /\ pos > Len(tk)) => bound = Subst(T, P)
\* values never change the structure: the bound script has the statements of the derived one, kind by kind
SameShape == (ph = "done" /\ pos > Len(tk) /\ Clean) =>
               LET r == Parse(bound) IN r.ok /\ Len(r.v) = Len(out) /\ \A j \in 1..Len(out) : r.v[j].k = out[j].k
=============================================================================
