----------------------------- MODULE PackagesMC -----------------------------
(* All programs of NPKG packages of up to NFILE files, every order of the files on disk, every interleaving of the parsing. *)
(* C14: every schedule ends with the same verdict and, when that is "ok", with the same symbols.                           *)
EXTENDS Packages, TLC, Json
CONSTANTS NPKG, NFILE, EMIT
VARIABLES P, s
vars == <<P, s>>
SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 1 .. n}
Files == [name : {""}, defs : {<<"a">>, <<"b">>, <<"a", "b">>, <<>>}, uses : {<<>>} \cup {<<[p |-> p, n |-> "a"]>> : p \in 0 .. NPKG}, syntax : BOOLEAN]
Orders(n) == {o \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => o[i] # o[j]}
Init == /\ P \in [1 .. NPKG -> SeqsUpTo({f \in Files : ~f.syntax \/ (f.defs = <<>> /\ f.uses = <<>>)}, NFILE)]
        /\ s \in {Start(P, o) : o \in {o \in [1 .. NPKG -> UNION {Orders(n) : n \in 1 .. NFILE}] : \A p \in 1 .. NPKG : Len(o[p]) = Len(P[p])}}
Next == \/ \E p \in DOMAIN P : CanRead(s, p) /\ s' = Read(P, s, p) /\ UNCHANGED P
        \/ Advance(P, s) # s /\ s' = Advance(P, s) /\ UNCHANGED P
        \/ s.stage \in {"bind", "eval"} /\ \E x \in s.left : s' = Handle(P, s, x) /\ UNCHANGED P
Spec == Init /\ [][Next]_vars
Ended == s.stage \in {"ok", "failed parse", "failed bind", "failed eval"}
C14_Verdict == Ended => s.stage = (IF Stage(P) = "ok" THEN "ok" ELSE "failed " \o Stage(P))
C14_Symbols == s.stage = "ok" => s.tab = [p \in DOMAIN P |-> Defined(P, p)]
C14_Blame == Ended /\ s.stage # "ok" => s.blame \subseteq Faulty(P, Stage(P))
C14_Ends == ~Ended => ENABLED Next
Out == EMIT /\ s = Start(P, [p \in DOMAIN P |-> [k \in DOMAIN P[p] |-> k]]) => PrintT("VF " \o ToJson([P |-> P, stage |-> Stage(P)]))
=============================================================================
