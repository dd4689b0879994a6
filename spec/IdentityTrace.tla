--------------------------- MODULE IdentityTrace ---------------------------
(* Recorded identifiers. Events: "pair": pairs of compiled buses that were described with one difference (or none), in   *)
(* several contexts; "narrow": identifiers of many buses of one small width; "shape": the identifier and timestamp.      *)
EXTENDS Identity, TLC, Json
VARIABLE g
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[g]
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Case.ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
ToSet(s) == {s[i] : i \in DOMAIN s}
Pair == LET ps == Case.ctx
            m == Mixed(ps)
            d == {i \in DOMAIN ps : Distinct(ps[i].a.l, ps[i].b.l)}
            i == CHOOSE k \in DOMAIN ps : TRUE
        IN  /\ Require(m = {}, "the same bus has two IDs", [edit |-> Case.edit, ids |-> {<<ps[k].a.id, ps[k].b.id>> : k \in m}])
            /\ Require(~Lost(ps), "the ID does not show a difference", [edit |-> Case.edit, changed |-> Changed(ps[i].a.l, ps[i].b.l), id |-> ps[i].a.id])
            /\ PrintT("VF " \o ToJson([ev |-> Case.ev, rule |-> "", what |-> [same |-> Cardinality({k \in DOMAIN ps : Same(ps[k].a.l, ps[k].b.l)}), distinct |-> Cardinality(d)]]))
Narrow == Require(Cardinality({Content(Case.ls[i]) : i \in DOMAIN Case.ls}) < 40 \/ Cardinality(ToSet(Case.ids)) > 1, "the ID is constant", [bw |-> Case.bw, id |-> Case.ids[1]])
Shape == LET bw == Case.bw
             ts == Case.ts
         IN  /\ Require(Register(Case.id, IdWidth(bw), 0), "the ID register", [bw |-> bw, id |-> Case.id])
             /\ Require(Register(Case.id2, IdWidth(bw), 0), "the ID register", [bw |-> bw, id |-> Case.id2])
             /\ Require(Register(ts, TsWidth(bw), Case.own), "the timestamp register", [bw |-> bw, own |-> Case.own, ts |-> ts])
             /\ Require(ts.late <= Case.span, "the timestamp is not the time of the generation", [bw |-> bw, late |-> ts.late, span |-> Case.span])
             /\ Require(Case.l0 = Case.l1, "the timestamp moves functionalities", [bw |-> bw])
Step == CASE Case.kind = "pair" -> Pair [] Case.kind = "narrow" -> Narrow [] OTHER -> Shape
Init == g = 1
Next == g <= Len(Trace) /\ Step /\ g' = g + 1
Spec == Init /\ [][Next]_g
NotStuck == ENABLED Next \/ g > Len(Trace)
=============================================================================
