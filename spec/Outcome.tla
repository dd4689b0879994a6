------------------------------- MODULE Outcome -------------------------------
(* A run of the compiler as its phases: each either goes on to the next one or ends the run with a diagnosis; only the last  *)
(* one writes to the standard output, and nothing fails afterwards.                                                        *)
EXTENDS Naturals, Sequences
Phases == <<"arguments", "discovery", "lexing", "parsing", "imports", "instantiation", "registerification", "constants dump", "encoding", "output">>
Running(p) == [phase |-> p, ended |-> FALSE, rc |-> 0, out |-> "", err |-> ""]
Go(s) == IF s.phase = Len(Phases) THEN [s EXCEPT !.ended = TRUE, !.out = "document"] ELSE [s EXCEPT !.phase = @ + 1]
Diagnose(s) == [s EXCEPT !.ended = TRUE, !.rc = 1, !.err = "message"]
(* what is seen of a run that ended; out: "" | "document" (one complete JSON document) | anything else *)
Shape(o) == \/ o.rc = 0 /\ o.out = "document" /\ o.err = ""
            \/ o.rc = 1 /\ o.out = "" /\ o.err # ""
=============================================================================
