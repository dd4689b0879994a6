------------------------------- MODULE ExprMC -------------------------------
(* The machine of Expr.tla on all short token sequences over small alphabets. *)
EXTENDS Expr, TLC, Json
CONSTANTS OPS, NUMS, MAXLEN, PARENS, EMIT
VARIABLES toks, m
vars == <<toks, m>>
Num(n) == [k |-> "num", b |-> 10, ds |-> <<n>>]
Alphabet == {Num(n) : n \in NUMS} \cup {[k |-> "op", o |-> o] : o \in OPS} \cup (IF PARENS THEN {[k |-> "("], [k |-> ")"]} ELSE {})
Init == toks = <<>> /\ m = M0
Read == /\ Len(toks) < MAXLEN
        /\ \E tk \in Alphabet : /\ m' = MStep(m, tk, <<>>) /\ m'.mode # "e" /\ toks' = Append(toks, tk)
Next == Read
Spec == Init /\ [][Next]_vars
Complete == m.mode = "o" /\ {i \in DOMAIN m.os : Bracket(m.os[i])} = {}
C12 == Complete => MResult(m) = Denote(toks)
StackOK == Len(m.vs) >= Cardinality({i \in DOMAIN m.os : m.os[i].k = "2"})
Emit == (EMIT /\ Complete) => PrintT("VF " \o ToJson([toks |-> toks]))
=============================================================================
