--------------------------- MODULE AddrSpaceTrace ---------------------------
(* Replays the machine of AddrSpace.tla on recorded trees: one node per step, sizes from the last node   *)
(* to the first, then spaces from the first to the last.  An event is [ev, t, r]: the described nodes     *)
(* (own: the recorded own size) and their recorded sizes and spaces.  PROP = "C05": the properties of     *)
(* the recorded values; PROP = "C07": the values are exactly those of the machine.                        *)
EXTENDS AddrSpace, TLC, Json
CONSTANT PROP
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, phase, n, m
vars == <<l, phase, n, m>>
Blank(k) == [i \in 1 .. k |-> [cum |-> 0, aligned |-> 0, start |-> 0, end |-> -1]]
Load(i) == l' = i /\ phase' = "size" /\ IF i <= Len(Trace) THEN n' = Len(Trace[i].t) /\ m' = Blank(Len(Trace[i].t)) ELSE n' = 0 /\ m' = <<>>
Init == l = 0 /\ phase = "done" /\ n = 0 /\ m = <<>>
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[l].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
Begin == l = 0 /\ Load(1)
Size == /\ l \in DOMAIN Trace /\ phase = "size" /\ n > 0
        /\ LET e == Trace[l]
               s == SizeStep(e.t, m, n)
           IN  /\ m' = s
               /\ IF PROP # "C07" THEN TRUE
                  ELSE Require(s[n].aligned = e.r[n].aligned, "aligned size", [node |-> n, got |-> e.r[n], expected |-> s[n]])
        /\ n' = n - 1 /\ UNCHANGED <<l, phase>>
Root == /\ l \in DOMAIN Trace /\ phase = "size" /\ n = 0
        /\ m' = PlaceRoot(Trace[l].t, m) /\ n' = 1 /\ phase' = "place" /\ UNCHANGED l
Place == /\ l \in DOMAIN Trace /\ phase = "place" /\ n <= Len(Trace[l].t)
         /\ LET e == Trace[l]
                s == IF n = 1 THEN m ELSE PlaceStep(e.t, m, n)
            IN  /\ m' = s
                /\ CASE PROP = "C07" -> Require(s[n].start = e.r[n].start /\ s[n].end = e.r[n].end, "address space",
                                                [node |-> n, got |-> e.r[n], expected |-> s[n]])
                     [] PROP = "C05" ->
                          /\ Require(ExactSpan(e.t, e.r, n), "size of address space", [node |-> n, got |-> e.r[n], cnt |-> e.t[n].cnt])
                          /\ Require(OwnFits(e.t, e.r, n), "own registers fit", [node |-> n, got |-> e.r[n], own |-> e.t[n].own])
                          /\ Require(Contained(e.t, e.r, n), "contained", [node |-> n, t |-> e.t, r |-> e.r])
                          /\ Require(Disjoint(e.t, e.r, n), "disjoint", [node |-> n, t |-> e.t, r |-> e.r])
                          /\ Require(Aligning(e.t, e.r, n), "aligned", [node |-> n, t |-> e.t, r |-> e.r])
         /\ n' = n + 1 /\ UNCHANGED <<l, phase>>
EndTree == l \in DOMAIN Trace /\ phase = "place" /\ n > Len(Trace[l].t) /\ Load(l + 1)
Next == Begin \/ Size \/ Root \/ Place \/ EndTree
Spec == Init /\ [][Next]_vars
Consumed == LET steps == [i \in DOMAIN Trace |-> 2 * Len(Trace[i].t) + 2]
            IN  TLCGet("stats").diameter = 2 + SumSet(DOMAIN Trace, steps)
=============================================================================
