------------------------------- MODULE InstMC -------------------------------
(* All short chains over small pools of properties and inner functionalities. *)
EXTENDS Inst, TLC, Json
CONSTANTS BASES, MAXLEV, MAXSTEPS, EMIT, WIDE      \* WIDE: many values of each property
VARIABLES base, lev, h, st
vars == <<base, lev, h, st>>

I(n) == [t |-> "int", v |-> FromInt(n)]
B(x) == [t |-> "bool", b |-> x]
S(x) == [t |-> "str", s |-> x]
R(l, r) == [t |-> "range", rs |-> <<[l |-> FromInt(l), r |-> FromInt(r)]>>]
P(n, v) == [name |-> n, v |-> v]
Values(n) ==
  CASE n = "width" -> {I(3), I(-1)}
    [] n = "range" -> {R(1, 9), R(4, 2), I(5)}
    [] n \in {"atomic", "virtual", "add-enable"} -> {B(TRUE), B(FALSE)}
    [] n \in {"init-value", "read-value", "reset-value"} -> {I(6), I(9), [t |-> "bits", p |-> "b", ds |-> <<"1", "Z">>]}
    [] n \in {"enable-init-value", "enable-reset-value"} -> {I(1), I(2)}
    [] n = "clear" -> {S("On Read"), S("Explicit"), S("Never")}
    [] n \in {"in-trigger", "out-trigger"} -> {S("Edge"), S("Level"), B(TRUE)}
    [] n = "reset" -> {S("Sync"), S("Async")}
    [] n = "align" -> {I(4), I(3)}
    [] n \in {"masters", "size"} -> {I(2), I(0)}
    [] n = "delay" -> {[t |-> "time", sec |-> BZero, ns |-> FromInt(7)], I(7)}
Bs(p, d) == [t |-> "bits", p |-> p, ds |-> d]
WideValues ==
  {I(x) : x \in (-5) .. 34 \cup {48, 63, 64, 65, -2147483647, -32, -33, 96, 100, 127, 128, 129, 255, 256, 1000, 1024, 4096, 65536, 65537, 2147483647}} \cup
  {S(x) : x \in {"", "Edge", "Level", "edge", "level", "EDGE", "Explicit", "On Read", "On  Read", "explicit", "on read", "OnRead", "Sync", "Async", "sync", "async",
                   "Synchronous", "Read", "Rising", "true", "1"}} \cup
  {B(TRUE), B(FALSE)} \cup
  {Bs(p, d) : p \in {"o", "x"}, d \in {<<"7">>, <<"0", "7">>}} \cup
  {Bs(p, d) : p \in {"b", "o", "x"}, d \in {<<"0">>, <<"1">>, <<"1", "1">>, <<"0", "0">>, <<"-", "W">>, <<"1", "0", "1", "0", "1", "0", "1", "0", "1">>}} \cup
  {R(l, r) : l \in {-1, 0, 1, 3, 8}, r \in {-1, 0, 1, 2, 3, 7, 8, 255, 256}} \cup
  {[t |-> "ranges", rs |-> <<R(a, b).rs[1], R(c, d).rs[1]>>] : a \in {0, 2}, b \in {1, 2, 3}, c \in {-1, 4, 5}, d \in {4, 16}} \cup
  {[t |-> "time", sec |-> FromInt(s), ns |-> FromInt(x)] : s \in {0, 1, 3600}, x \in {0, 1, 999999999}}
ValuesFor(n) == IF WIDE THEN WideValues ELSE Values(n)
Pool == UNION {{P(n, v) : v \in ValuesFor(n)} : n \in ValidProps(base)} \cup {P(IF base = "irq" THEN "width" ELSE "clear", I(3))}
K(n, b) == [name |-> n, base |-> b, out |-> IF n = "b" THEN "Edge" ELSE "Level"]
Kids == CASE base \in {"block", "bus"} -> {K("a", "config"), K("a", "status"), K("b", "proc"), K("c", "param"), K("b", "bus")}
          [] base = "group" -> {K("a", "config"), K("a", "irq"), K("b", "irq"), K("b", "param"), K("c", "proc"), K("c", "status")}
          [] base \in {"proc", "stream"} -> {K("a", "param"), K("b", "param"), K("a", "return"), K("b", "return"), K("c", "config")}
          [] base \in {"config", "irq"} -> {K("a", "config")}
          [] OTHER -> {}
Init == base \in BASES /\ lev = 1 /\ h = <<>> /\ st = St0
Prop == \E p \in Pool : st' = SetProp(st, base, p) /\ h' = Append(h, [lev |-> lev, k |-> "prop", p |-> p])
Kid  == \E k \in Kids : st' = AddKid(st, base, k) /\ h' = Append(h, [lev |-> lev, k |-> "kid", p |-> k])
Step == /\ Len(h) < MAXSTEPS /\ st.err = "" /\ (Prop \/ Kid) /\ UNCHANGED <<base, lev>>
Level == lev < MAXLEV /\ Len(h) < MAXSTEPS /\ lev' = lev + 1 /\ UNCHANGED <<base, h, st>>
Next == Step \/ Level
Spec == Init /\ [][Next]_vars

Props == {i \in DOMAIN h : h[i].k = "prop"}
KidsIn == {i \in DOMAIN h : h[i].k = "kid"}
(* the rules, on the whole history at once *)
PropsValid == /\ \A i \in Props : h[i].p.name \in ValidProps(base) /\ PropOk(h[i].p.name, h[i].p.v)
              /\ \A i, j \in Props : h[i].p.name = h[j].p.name => i = j
              /\ ~(\E i, j \in Props : h[i].p.name = "width" /\ h[j].p.name = "range")
KidsValid == /\ \A i \in KidsIn : h[i].p.base \in ValidInner(base)
             /\ \A i, j \in KidsIn : h[i].p.name = h[j].p.name => i = j
             /\ base = "group" => (\A i, j \in KidsIn : (h[i].p.base = "irq") = (h[j].p.base = "irq"))
             /\ base = "group" => (\A i, j \in KidsIn : \A x \in {"param", "return"} : (h[i].p.base = x) = (h[j].p.base = x))
             /\ base = "stream" => (\A i, j \in KidsIn : h[i].p.base = h[j].p.base)
C11 == (st.err = "") <=> (PropsValid /\ KidsValid)
(* the properties are the union of those of all levels, each set once *)
C08 == st.err = "" => /\ DOMAIN st.set = {h[i].p.name : i \in Props}
                      /\ Cardinality(DOMAIN st.set) = Cardinality(Props)
                      /\ \A i \in Props : st.set[h[i].p.name] = h[i].p.v
(* every shown property has a value, and values have the width of the functionality *)
Defaults == (Finish(st, base, 8).err = "") =>
              LET r == Result(st, base, 8)
              IN  /\ DOMAIN r = ValidProps(base)
                  /\ \A n \in DOMAIN r \cap ValueProps : Has(st, n) => BitLen(r[n]) <= Width(st, base, 8)
                  /\ \A n \in DOMAIN st.set \ (ValueProps \cup {"range"}) : r[n] = st.set[n]
Emit == EMIT => PrintT("VF " \o ToJson([base |-> base, h |-> h, err |-> st.err]))
=============================================================================
