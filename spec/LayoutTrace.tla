---------------------------- MODULE LayoutTrace ----------------------------
(* Replays the allocating machine of Layout.tla against recorded blocks, one functionality per step, and  *)
(* reports every record that breaks the property PROP.  An event is                                      *)
(*   [ev, bw, base, own, cum, missing, xs, fixed, subs]                                                  *)
(* (base: 1 for the main bus, where register 0 is the bus identifier, else 0; own, cum: recorded own and    *)
(* cumulated size; missing: functionalities not found in the output; xs: functionalities in order of        *)
(* declaration with recorded placements; fixed: recorded access descriptors of the bus identifier and the   *)
(* timestamp; subs: counts and cumulated sizes of the sub-blocks)                                          *)
EXTENDS Layout, TLC, Json
CONSTANT PROP

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l,      \* current event
          ord,    \* order of allocation of its functionalities
          k,      \* functionalities replayed
          st,     \* state of the machine
          used,   \* cells used by recorded placements
          bad     \* C07: the recorded map already diverged
vars == <<l, ord, k, st, used, bad>>

FixedCells(e) == UNION {Cells(e.fixed[i], e.bw) : i \in DOMAIN e.fixed}
FixedBits(e) == SumSeq([i \in DOMAIN e.fixed |-> Cardinality(Cells(e.fixed[i], e.bw))])
FixedRegs(e) == {c \div e.bw : c \in FixedCells(e)}
FixedWidth(e, i) == LET m == IF i = 1 THEN 32 ELSE 36 IN IF e.bw < m THEN e.bw ELSE m
Fs(e) == [i \in DOMAIN e.xs |-> e.xs[i].f]
Load(n) == /\ l' = n /\ k' = 0 /\ bad' = FALSE
           /\ IF n <= Len(Trace)
              THEN /\ ord' = Order(Fs(Trace[n])) /\ st' = Start(Trace[n].bw, Trace[n].base)
                   /\ used' = IF PROP = "C01" THEN FixedCells(Trace[n]) ELSE {}
              ELSE ord' = <<>> /\ st' = Start(1, 0) /\ used' = {}
Init == l = 0 /\ k = 0 /\ used = {} /\ bad = FALSE /\ ord = <<>> /\ st = Start(1, 0)

Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[l].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)

(* rules about one functionality x, in the state before its step *)
StepRules(e, x, exp) ==
  CASE PROP = "C01" ->
         /\ Require(InsideOwn(x, e.bw), "inside", x)
         /\ Require(DisjointFrom(x, used, e.bw), "overlap", x)
    [] PROP = "C02" -> TRUE
    [] PROP = "C03" -> Require(Described(x, e.bw), "descriptor", x)
    [] PROP = "C06" -> Require(IF x.f.kind \in {"proc", "stream"} THEN CallableOK(x, e.bw) ELSE TRUE, "addresses", x)
    [] PROP = "C07" -> Require(bad \/ x.p = exp, "placement", [got |-> x, expected |-> exp])
    [] OTHER -> TRUE
(* rules about the whole block *)
EndRules(e) ==
  CASE PROP = "C01" -> Require(FixedBits(e) = Cardinality(FixedCells(e)) /\ \A i \in DOMAIN e.fixed : InRegister(e.fixed[i], e.bw),
                               "identifier and timestamp", e.fixed)
    [] PROP = "C03" -> Require(\A i \in DOMAIN e.fixed : Describes(e.fixed[i], e.bw, 1, FixedWidth(e, i), FALSE),
                               "identifier and timestamp", e.fixed)
    [] PROP = "C02" ->
         /\ \A i \in DOMAIN e.xs : Require(~SelfIntrudes(e.xs[i], e.bw), "own clear", e.xs[i])
         /\ \A i, j \in DOMAIN e.xs : Require(i = j \/ ~Intrudes(e.xs[i], e.xs[j], e.bw), "shared", <<e.xs[i], e.xs[j]>>)
    [] PROP = "C04" ->
         /\ LET U == Used(e.xs, e.bw) \cup FixedRegs(e) IN
            Require(e.missing > 0 \/ U = 0 .. e.own - 1, "own size", [own |-> e.own, used |-> U])
         /\ Require(IF e.base = 0 THEN TRUE ELSE /\ Regs(e.fixed[1], e.bw) = {0}
                                                /\ 0 \notin Used(e.xs, e.bw)
                                                /\ IF Len(e.fixed) < 2 THEN TRUE ELSE 0 \notin Regs(e.fixed[2], e.bw),
                    "address 0", e.fixed)
         /\ Require(e.cum = e.own + SumSeq([i \in DOMAIN e.subs |-> e.subs[i].cnt * e.subs[i].cum]), "cumulated size",
                    [own |-> e.own, cum |-> e.cum, subs |-> e.subs])
    [] PROP = "C07" -> /\ Require(e.missing = 0, "missing functionalities", e.missing)
                       /\ Require(bad \/ st.addr + (IF Len(e.fixed) = 2 THEN 1 ELSE 0) = e.own, "own size",
                                         [own |-> e.own, expected |-> st.addr])
                       /\ Require(Len(e.fixed) < 2 \/ e.fixed[2].sa = st.addr, "timestamp address",
                                  [got |-> e.fixed[2].sa, expected |-> st.addr])
    [] OTHER -> TRUE

Replay ==
  /\ l \in DOMAIN Trace /\ k < Len(ord)
  /\ LET e == Trace[l]
         x == e.xs[ord[k + 1]]
         s == Alloc(st, x.f)
     IN  /\ StepRules(e, x, LastOf(s.out))
         /\ st' = [s EXCEPT !.out = <<>>]
         /\ bad' = (bad \/ x.p # LastOf(s.out))
         /\ used' = IF PROP = "C01" THEN used \cup PartCells(x, e.bw) ELSE used
  /\ k' = k + 1 /\ UNCHANGED <<l, ord>>
EndBlock ==
  /\ l \in DOMAIN Trace /\ k = Len(ord)
  /\ EndRules(Trace[l])
  /\ Load(l + 1)
Begin == l = 0 /\ Load(1)
Next == Begin \/ Replay \/ EndBlock
Spec == Init /\ [][Next]_vars
(* all events were consumed *)
Consumed == TLCGet("stats").diameter = 2 + SumSeq([i \in DOMAIN Trace |-> Len(Trace[i].xs) + 1])
=============================================================================
