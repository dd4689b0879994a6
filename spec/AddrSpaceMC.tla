---------------------------- MODULE AddrSpaceMC ----------------------------
(* All small trees of blocks: described, sized from the leaves, placed from the root. *)
EXTENDS AddrSpace, TLC, Json
CONSTANTS NODES, OWNS, CNTS, ALIGNS, EMIT
VARIABLES t, r, phase, n
vars == <<t, r, phase, n>>
R0 == [cum |-> 0, aligned |-> 0, start |-> 0, end |-> -1]
Init == /\ phase = "describe" /\ n = 0 /\ r = <<R0>>
        /\ t \in {<<[parent |-> 0, own |-> o, cnt |-> 1, align |-> a, rank |-> 1]>> : o \in OWNS \ {0}, a \in ALIGNS}
Describe == /\ phase = "describe" /\ Len(t) < NODES
            /\ \E p \in DOMAIN t, o \in OWNS, c \in CNTS, a \in ALIGNS :
                  t' = Append(t, [parent |-> p, own |-> o, cnt |-> c, align |-> a, rank |-> Len(t) + 1])
            /\ r' = Append(r, R0) /\ UNCHANGED <<phase, n>>
Begin == phase = "describe" /\ phase' = "size" /\ n' = Len(t) /\ UNCHANGED <<t, r>>
Size == /\ phase = "size" /\ n > 0 /\ r' = SizeStep(t, r, n) /\ n' = n - 1 /\ UNCHANGED <<t, phase>>
Root == /\ phase = "size" /\ n = 0 /\ r' = PlaceRoot(t, r) /\ phase' = "place" /\ n' = 2 /\ UNCHANGED t
Place == /\ phase = "place" /\ n <= Len(t) /\ r' = PlaceStep(t, r, n) /\ n' = n + 1 /\ UNCHANGED <<t, phase>>
Finish == phase = "place" /\ n > Len(t) /\ phase' = "done" /\ UNCHANGED <<t, r, n>>
Next == Describe \/ Begin \/ Size \/ Root \/ Place \/ Finish
Spec == Init /\ [][Next]_vars
C05 == phase = "done" => \A i \in DOMAIN t : BlockOK(t, r, i)
Cum == phase = "done" => \A i \in DOMAIN t : r[i].cum >= t[i].own
Emit == (EMIT /\ phase = "done") => PrintT("VF " \o ToJson([t |-> t]))
=============================================================================
