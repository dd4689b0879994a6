---------------------------- MODULE PackagesTrace ----------------------------
(* Programs compiled many times, under many schedules and with their files in many orders, checked against Packages.tla.    *)
(* An event is [P: the packages, base: exit status of the main package alone, runs: sequence of [how, rc, out, dump:        *)
(* digests, blame: files the message names, race: reported accesses without synchronisation]]; run by run.                  *)
EXTENDS Packages, TLC, Json
VARIABLES i, k
vars == <<i, k>>
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[i]
Run == Ev.runs[k]
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Ev.ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
Names(S) == {At(Ev.P, x).name : x \in S}
Init == i = 1 /\ k = 1
Step ==
  /\ i <= Len(Trace) /\ k <= Len(Ev.runs)
  /\ LET g == Stage(Ev.P)
         ref == Ev.runs[1]
     IN  /\ Require(Run.race = "", "concurrent accesses to the same data without synchronisation", Run.race)
         /\ IF Ev.base = 0 THEN Require(Run.rc = (IF g = "ok" THEN 0 ELSE 1), "the verdict is not that of the program", [stage |-> g, run |-> Run])
            ELSE Require(Run.rc = ref.rc, "runs of the same program differ in their verdicts", [first |-> ref, other |-> Run])
         /\ Require(Run.rc = 0 => (Run.out = ref.out /\ Run.dump = ref.dump), "runs of the same program differ in their outputs", [first |-> ref, other |-> Run])
         /\ Require(Ev.base = 0 /\ g # "ok" /\ Run.rc = 1 => (\E b \in SetOf(Run.blame) : b \in Names(Faulty(Ev.P, g))), "the message names no faulty file", [stage |-> g, faulty |-> Names(Faulty(Ev.P, g)), run |-> Run])
  /\ IF k = Len(Ev.runs) THEN i' = i + 1 /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED i
Next == Step
Spec == Init /\ [][Next]_vars
NotStuck == ENABLED Next \/ i > Len(Trace)
=============================================================================
