------------------------------- MODULE ArgsMC -------------------------------
(* All command lines of up to MAXG option groups (WHOLE) or of up to MAXG arbitrary arguments, read by the machine of      *)
(* Args.tla argument by argument. C20: the machine reads what is declared; the order of different options does not matter. *)
EXTENDS Args, TLC, Json
CONSTANTS MAXG, WHOLE, EMIT
VARIABLES gs, s, file
vars == <<gs, s, file>>
Dashed == {"-help", "-version", "-debug", "-add-timestamp", "-main", "-c", "-bogus"}
Tokens == Dashed \cup {"Alt", "x.json"}
Files == {"bus.fbd", "missing.fbd", "bad.fbd"} \cup (IF WHOLE THEN {} ELSE Dashed)
Alphabet == IF WHOLE THEN Groups ELSE {<<t>> : t \in Tokens}
RECURSIVE ReadAll(_, _)
ReadAll(x, as) == IF as = <<>> THEN x ELSE ReadAll(Read(x, Head(as), Head(as) \in Dashed), Tail(as))
Init == gs = <<>> /\ s = Start /\ file = ""
Grow == file = "" /\ Len(gs) < MAXG /\ \E g \in Alphabet : gs' = Append(gs, g) /\ s' = ReadAll(s, g) /\ UNCHANGED file
Close == file = "" /\ \E f \in Files : file' = f /\ s' = Last(s, f, f \in Dashed) /\ UNCHANGED gs
Next == Grow \/ Close
Spec == Init /\ [][Next]_vars
Done == file # ""
Args_ == Flat(gs) \o <<file>>
Same(r, d) == r.out = d.out /\ (d.out = "compile" => r.main = d.main /\ r.c = d.c /\ r.ts = d.ts /\ r.debug = d.debug /\ r.file = d.file)
Incremental == Done => s = Parse(Args_, Dashed)
C20_Declared == WHOLE /\ Done /\ ~s.open => Same(s, Declared(gs, file))
Swap(k) == [gs EXCEPT ![k] = gs[k + 1], ![k + 1] = gs[k]]
Independent(g, h) == g[1] # h[1] /\ \A x \in {g, h} : x \notin {<<"-help">>, <<"-version">>, <<"-bogus">>, <<"word">>}
C20_Order == WHOLE /\ Done /\ ~s.open => \A k \in 1 .. Len(gs) - 1 :
  Independent(gs[k], gs[k + 1]) /\ (k + 2 <= Len(gs) => gs[k + 2] # <<"word">>) /\ Ends(gs) = {}
     => LET o == Parse(Flat(Swap(k)) \o <<file>>, Dashed) IN [o EXCEPT !.mode = ""] = [s EXCEPT !.mode = ""]
(* an option never hides a fault, and the file is never taken for an option's argument *)
C20_File == Done /\ s.out = "compile" => s.file = file
Out == EMIT /\ Done /\ ~s.open => PrintT("VF " \o ToJson([args |-> Args_, out |-> s.out]))
=============================================================================
