------------------------------ MODULE ExprTrace ------------------------------
(* Recorded evaluations, checked against Expr.tla: each event is a compiled description with constants   *)
(* (in the order of their dependencies) and the values which the compiler gave them; the tokens are read  *)
(* one per step by the machine of Expr.tla.                                                             *)
(* Recorded values [t: "int", v] ["float", neg, n, s: n / 10^s] ["bool", v] ["str", v] ["ints", xs]       *)
(* ["bools", xs] ["range", l, r] ["time", s, ns] ["none"]                                                *)
EXTENDS Expr, TLC, Json
VARIABLES i, c, p, m, env, bad
vars == <<i, c, p, m, env, bad>>
Trace == ndJsonDeserialize("trace.ndjson")

Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[i].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)

(* the sink of a constant: "const" (any value), "range", "delay": values accepted by these properties *)
Accepted(sink, v) ==
  CASE v.t = "any" -> TRUE
    [] v.t = "err" -> FALSE
    [] sink = "range" -> IF v.t # "range" THEN FALSE ELSE ~v.l.neg /\ BLeq(v.l, v.r)
    [] sink = "delay" -> v.t = "time"
    [] OTHER -> TRUE

Init == i = 1 /\ c = 1 /\ p = 1 /\ m = M0 /\ env = <<>> /\ bad = FALSE
Ev == Trace[i]
Shown(v) == ToString(v)
Token == /\ i <= Len(Trace) /\ c <= Len(Ev.consts) /\ p <= Len(Ev.consts[c].toks)
         /\ m' = MStep(m, Ev.consts[c].toks[p], env) /\ p' = p + 1
         /\ UNCHANGED <<i, c, env, bad>>
Constant == /\ i <= Len(Trace) /\ c <= Len(Ev.consts) /\ p > Len(Ev.consts[c].toks)
            /\ LET v == MResult(m)
                   k == Ev.consts[c]
               IN  /\ env' = [x \in DOMAIN env \cup {k.name} |-> IF x = k.name THEN v ELSE env[x]]
                   /\ bad' = (bad \/ ~Accepted(k.sink, v))
                   /\ Require(Ev.rc # 0 \/ ~Accepted(k.sink, v) \/ Matches(v, k.got), "value",
                              [name |-> k.name, text |-> k.text, expected |-> Shown(v), got |-> Shown(k.got)])
            /\ c' = c + 1 /\ p' = 1 /\ m' = M0 /\ UNCHANGED i
SomeAny == \E x \in DOMAIN env : env[x].t = "any"
File == /\ i <= Len(Trace) /\ c > Len(Ev.consts)
        /\ LET any == SomeAny
           IN  Require(any \/ Ev.rc = (IF bad THEN 1 ELSE 0), IF bad THEN "an error is not reported" ELSE "valid expressions are rejected",
                       [rc |-> Ev.rc, consts |-> [k \in DOMAIN Ev.consts |-> <<Ev.consts[k].text, Shown(env[Ev.consts[k].name])>>]])
        /\ i' = i + 1 /\ c' = 1 /\ p' = 1 /\ m' = M0 /\ env' = <<>> /\ bad' = FALSE
Next == Token \/ Constant \/ File
Spec == Init /\ [][Next]_vars
RECURSIVE SumLen(_, _)
SumLen(cs, j) == IF j > Len(cs) THEN 1 ELSE 1 + Len(cs[j].toks) + SumLen(cs, j + 1)
RECURSIVE SumTrace(_)
SumTrace(j) == IF j > Len(Trace) THEN 1 ELSE SumLen(Trace[j].consts, 1) + SumTrace(j + 1)
Consumed == TLCGet("stats").diameter = SumTrace(1)
=============================================================================
