------------------------------- MODULE Packages -------------------------------
(* The packages of a program, compiled concurrently. A program is a sequence of packages, a package a sequence of files,    *)
(* a file [name, defs: sequence of the symbols it defines, uses: sequence of [p, n] (symbol n of package p, p = 0 a package *)
(* that cannot be found), syntax: it is malformed]. Packages are parsed concurrently, the files of one after the other in   *)
(* the order they have on disk; then imports are bound and constants evaluated, in any order.                               *)
EXTENDS Naturals, Sequences, FiniteSets
SetOf(s) == {s[k] : k \in DOMAIN s}
FilesOf(P) == UNION {{[p |-> p, f |-> f] : f \in DOMAIN P[p]} : p \in DOMAIN P}
At(P, x) == P[x.p][x.f]
Defined(P, p) == UNION {SetOf(P[p][f].defs) : f \in DOMAIN P[p]}

(* ---------------------------- what holds whatever the schedule ---------------------------- *)
Twice(P, x) == \/ \E k, j \in DOMAIN At(P, x).defs : k # j /\ At(P, x).defs[k] = At(P, x).defs[j]
               \/ \E y \in FilesOf(P) : y.p = x.p /\ y.f # x.f /\ SetOf(At(P, x).defs) \cap SetOf(At(P, y).defs) # {}
Faulty(P, stage) == {x \in FilesOf(P) :
  CASE stage = "parse" -> At(P, x).syntax \/ Twice(P, x)
    [] stage = "bind" -> \E u \in SetOf(At(P, x).uses) : u.p = 0
    [] OTHER -> \E u \in SetOf(At(P, x).uses) : u.p # 0 /\ u.n \notin Defined(P, u.p)}
Stage(P) == IF Faulty(P, "parse") # {} THEN "parse" ELSE IF Faulty(P, "bind") # {} THEN "bind" ELSE IF Faulty(P, "eval") # {} THEN "eval" ELSE "ok"

(* ---------------------------------- the machine ---------------------------------- *)
(* s: [stage, next: files of the packages still to read (sequences), tab: symbols of the packages, left: files to bind or evaluate, blame] *)
Start(P, order) == [stage |-> "parse", next |-> order, tab |-> [p \in DOMAIN P |-> {}], left |-> {}, blame |-> {}]
Fail(s, x) == [s EXCEPT !.stage = "failed " \o s.stage, !.blame = {x}]
Read(P, s, p) ==
  LET x == [p |-> p, f |-> Head(s.next[p])]
      c == At(P, x)
  IN  IF c.syntax \/ (\E k, j \in DOMAIN c.defs : k # j /\ c.defs[k] = c.defs[j]) \/ SetOf(c.defs) \cap s.tab[p] # {} THEN Fail(s, x)
      ELSE [s EXCEPT !.tab[p] = @ \cup SetOf(c.defs), !.next[p] = Tail(@)]
CanRead(s, p) == s.stage = "parse" /\ s.next[p] # <<>>
Advance(P, s) == IF s.stage = "parse" /\ \A p \in DOMAIN P : s.next[p] = <<>> THEN [s EXCEPT !.stage = "bind", !.left = FilesOf(P)]
                 ELSE IF s.stage = "bind" /\ s.left = {} THEN [s EXCEPT !.stage = "eval", !.left = FilesOf(P)]
                 ELSE IF s.stage = "eval" /\ s.left = {} THEN [s EXCEPT !.stage = "ok"]
                 ELSE s
Handle(P, s, x) == IF (s.stage = "bind" /\ \E u \in SetOf(At(P, x).uses) : u.p = 0)
                      \/ (s.stage = "eval" /\ \E u \in SetOf(At(P, x).uses) : u.p # 0 /\ u.n \notin s.tab[u.p])
                   THEN Fail(s, x) ELSE [s EXCEPT !.left = @ \ {x}]
=============================================================================
