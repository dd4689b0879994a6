----------------------------- MODULE OutcomeTrace -----------------------------
(* Recorded runs on arbitrary inputs: how: "ended" | "crash" | "hang" | "signal", rc, out, err, and the place of a crash.   *)
EXTENDS Outcome, TLC, Json
VARIABLE i
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[i]
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Ev.ev, rule |-> rule, what |-> what]))
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ IF Ev.how # "ended" THEN Report(Ev.how, [at |-> Ev.at, rc |-> Ev.rc, stderr |-> Ev.stderr])
           ELSE IF Shape([rc |-> Ev.rc, out |-> Ev.out, err |-> Ev.err]) THEN TRUE
           ELSE Report("neither one document nor a diagnosis", [rc |-> Ev.rc, out |-> Ev.out, stderr |-> Ev.stderr])
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
NotStuck == ENABLED Next \/ i > Len(Trace)
=============================================================================
