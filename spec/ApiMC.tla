------------------------------- MODULE ApiMC -------------------------------
(* Histories of calls of the library, and the derived answers for all small procs, streams and groups. *)
EXTENDS Api, TLC, Json
CONSTANTS PROGS, BAD, MAXSTEPS, MAXADDR, EMIT
VARIABLES steps, x, held
vars == <<steps, x, held>>
Result(p) == "result " \o ToString(p)
Ok == [p \in 1 .. PROGS |-> p \notin BAD]
Results == [p \in 1 .. PROGS |-> Result(p)]

(* consecutive items: each starts in the register in which the previous one ends or in the next one *)
RECURSIVE Items(_, _)
Items(n, from) == IF n = 0 THEN {<<>>}
                  ELSE UNION {{<<<<s, e>>>> \o t : t \in Items(n - 1, e)} : <<s, e>> \in {<<a, b>> \in (0 .. MAXADDR) \X (0 .. MAXADDR) : a \in {from, from + 1} /\ a <= b}}
Packed == UNION {Items(n, 0) : n \in 0 .. 3}
Clears == {"On Read", "Explicit"} \X BOOLEAN
Things == {[type |-> "proc", ps |-> p, rs |-> r] : p, r \in Packed}
     \cup {[type |-> "stream", ps |-> p, rs |-> r, stb |-> s] : p \in Packed, r \in {<<>>}, s \in 0 .. 1}
     \cup {[type |-> "stream", ps |-> <<>>, rs |-> r, stb |-> s] : r \in Packed, s \in 0 .. 1}
     \cup {[type |-> "group", nums |-> [config |-> a, mask |-> b, param |-> c], irqs |-> i, consts |-> n] : a, b, c \in 0 .. 1, n \in 0 .. 1, i \in {<<>>} \cup {<<k>> : k \in Clears} \cup (Clears \X Clears)}
     \cup {[type |-> "config", acc |-> <<0, 1>>]}

(* the library: a table of results which only grows; a question reads one of them *)
Init == steps = <<>> /\ held = <<>> /\ x \in (IF EMIT THEN {[type |-> "config", acc |-> <<0, 1>>]} ELSE Things)
Compile(p) == steps' = Append(steps, [op |-> "compile", p |-> p]) /\ held' = Append(held, IF Ok[p] THEN Result(p) ELSE "nothing")
Ask(h) == steps' = Append(steps, [op |-> "ask", h |-> h]) /\ UNCHANGED held
Next == /\ Len(steps) < MAXSTEPS /\ (EMIT \/ x.type = "config") /\ UNCHANGED x
        /\ (\E p \in 1 .. PROGS : Compile(p)) \/ (\E h \in DOMAIN held : Ask(h))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
C21_History == \A i \in DOMAIN steps : steps[i].op = "ask" => Shown(steps, i, Ok, Results) = held[steps[i].h]
C21_Kinds == x.type = "proc" =>
  LET a == Expected(x)
  IN  /\ Cardinality({k \in {"isempty", "isparam", "isreturn"} : a[k]}) = (IF x.ps # <<>> /\ x.rs # <<>> THEN 0 ELSE 1)
      /\ (a.pbuf = 0) = (a.pstart = None) /\ (a.rbuf = 0) = (a.rstart = None)
      /\ (x.ps # <<>> => a.pstart = x.ps[1][1] /\ a.pstart + a.pbuf - 1 = x.ps[Len(x.ps)][2])
      /\ (x.rs # <<>> => a.rstart = x.rs[1][1] /\ a.rstart + a.rbuf - 1 = x.rs[Len(x.rs)][2])
C21_Stream == x.type = "stream" => LET a == Expected(x) IN a.up # a.down /\ (a.up => x.rs # <<>>) /\ (a.down => x.rs = <<>>)
                                                           /\ (x.ps \o x.rs = <<>> => a.start = x.stb)
C21_Group == x.type = "group" => (Expected(x).ro <=> /\ x.nums.config + x.nums.mask + x.nums.param = 0
                                                     /\ ~\E i \in DOMAIN x.irqs : x.irqs[i][1] = "Explicit" \/ x.irqs[i][2])
(* histories worth replaying: the last question is about a result which something has come after *)
Out == EMIT /\ Len(steps) = MAXSTEPS /\ steps[MAXSTEPS].op = "ask" => PrintT("VF " \o ToJson([steps |-> steps]))
=============================================================================
