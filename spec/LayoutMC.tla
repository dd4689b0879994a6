------------------------------ MODULE LayoutMC ------------------------------
(* The allocating machine on all small blocks: a block is described functionality by   *)
(* functionality (kinds in the order of allocation, as their interleaving has no        *)
(* influence), then allocated step by step.                                             *)
EXTENDS Layout, TLC, Json
CONSTANTS BW, BASE, MAXF, KINDS, WIDTHS, COUNTS, EMIT

F(k) == [kind |-> k, w |-> 1, n |-> 1, arr |-> FALSE, atomic |-> TRUE, en |-> FALSE, expl |-> FALSE, delay |-> FALSE,
         ps |-> <<>>, rs |-> <<>>]
Item(w, n, arr) == [w |-> w, n |-> n, arr |-> arr]
Items == {Item(w, 1, FALSE) : w \in WIDTHS} \cup {Item(w, n, TRUE) : w \in {1, 3}, n \in COUNTS}
ItemSeqs == {<<>>} \cup {<<i>> : i \in Items}
ItemSeqs2 == ItemSeqs \cup {<<Item(v, 1, FALSE), Item(w, 1, FALSE)>> : v \in WIDTHS, w \in WIDTHS}

Singles(k) == {[F(k) EXCEPT !.w = w, !.atomic = a] : w \in WIDTHS, a \in IF k \in {"config", "status"} THEN BOOLEAN ELSE {TRUE}}
Arrays(k)  == {[F(k) EXCEPT !.w = w, !.n = n, !.arr = TRUE, !.atomic = a] :
                  w \in {x \in WIDTHS : k = "status" \/ x <= BW}, n \in COUNTS, a \in IF k = "status" THEN BOOLEAN ELSE {TRUE}}
Of(k) == CASE k = "proc" -> {[F(k) EXCEPT !.ps = ps, !.rs = rs, !.delay = d] : ps \in ItemSeqs, rs \in ItemSeqs, d \in BOOLEAN}
           [] k = "stream" -> {[F(k) EXCEPT !.ps = ps] : ps \in ItemSeqs2} \cup {[F(k) EXCEPT !.rs = rs] : rs \in ItemSeqs2}
           [] k = "irq" -> {[F(k) EXCEPT !.en = e, !.expl = x] : e \in BOOLEAN, x \in BOOLEAN}
           [] k = "mask" -> Singles(k)
           [] OTHER -> Singles(k) \cup Arrays(k)

VARIABLES fs, todo, st, phase
vars == <<fs, todo, st, phase>>

Init == fs = <<>> /\ todo = <<>> /\ st = Start(BW, BASE) /\ phase = "describe"

Describe == /\ phase = "describe" /\ Len(fs) < MAXF
            /\ \E k \in KINDS : /\ IF fs = <<>> THEN TRUE ELSE KindRank(LastOf(fs).kind) <= KindRank(k)
                                /\ \E f \in Of(k) : fs' = Append(fs, f)
            /\ UNCHANGED <<todo, st, phase>>
Begin == /\ phase = "describe" /\ fs # <<>>
         /\ phase' = "alloc" /\ todo' = Order(fs) /\ UNCHANGED <<fs, st>>
Allocate == /\ phase = "alloc" /\ todo # <<>>
            /\ st' = Alloc(st, fs[Head(todo)]) /\ todo' = Tail(todo) /\ UNCHANGED <<fs, phase>>
Finish == /\ phase = "alloc" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<fs, todo, st>>
Next == Describe \/ Begin \/ Allocate \/ Finish
Spec == Init /\ [][Next]_vars

(* the functionalities allocated so far with their placements *)
Placed == LET o == Order(fs) IN [i \in DOMAIN st.out |-> [f |-> fs[o[i]], p |-> st.out[i]]]

C01 == phase = "done" => NoOverlap(Placed, BW)
C02 == phase = "done" => Exclusive(Placed, BW)
C03 == phase = "done" => \A i \in DOMAIN Placed : Described(Placed[i], BW)
C04 == phase = "done" => Counted(Placed, BW, BASE, st.addr)
C06 == phase = "done" => \A i \in DOMAIN Placed : Placed[i].f.kind \in {"proc", "stream"} => CallableOK(Placed[i], BW)
(* C07: the order is the documented one and is total; no gap that fits a single status was left unused, and  *)
(* the pool is sorted and never overlaps what is placed                                                   *)
C07 == /\ \A i, j \in DOMAIN st.gaps : i < j => GapWidth(st.gaps[i], BW) <= GapWidth(st.gaps[j], BW)
       /\ \A i, j \in DOMAIN st.gaps : i # j => st.gaps[i].addr # st.gaps[j].addr
       /\ \A i \in DOMAIN st.gaps : \A j \in DOMAIN Placed :
             PartCells(Placed[j], BW) \cap (st.gaps[i].addr * BW + st.gaps[i].bit .. st.gaps[i].addr * BW + BW - 1) = {}
       /\ \A i \in DOMAIN st.gaps : st.gaps[i].safe =>
             \A j \in DOMAIN Placed : Placed[j].f.kind \in {"config", "mask", "irq"} => st.gaps[i].addr \notin Owned(Placed[j], BW)
       /\ phase = "done" => \A i, j \in DOMAIN fs : Before(fs[i], fs[j]) => ~Before(fs[j], fs[i])

(* prints every complete block (spec -> code) *)
Emit == (EMIT /\ phase = "done") => PrintT("VF " \o ToJson([bw |-> BW, fs |-> fs]))
=============================================================================
