------------------------------ MODULE OutcomeMC ------------------------------
EXTENDS Outcome
VARIABLE s
Init == s = Running(1)
Next == ~s.ended /\ (s' = Go(s) \/ (s.phase < Len(Phases) /\ s' = Diagnose(s)))
Spec == Init /\ [][Next]_s /\ WF_s(Next)
C15_Shape == s.ended => Shape(s)
C15_Silent == ~s.ended => s.out = "" /\ s.err = ""
C15_Ends == <>(s.ended)
=============================================================================
