----------------------------- MODULE ImportsTrace -----------------------------
(* Recorded compilations in directory trees, checked against Imports.tla. An event is [fs: the file system, roots: the      *)
(* working directory and FBDPATH, texts: contents of the file nodes, main: node of the main file, rc, dump: the constants   *)
(* [d: node of the package or 0, b: its name or "", n, v] of the constants file, insts: the instances [n, w] of the main bus].                                           *)
EXTENDS Imports, TLC, Json
VARIABLES i, todo, on
vars == <<i, todo, on>>
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[i]
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Ev.ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
Init == i = 1 /\ todo = {} /\ on = FALSE
PkgsOf == Packages(Ev.fs, Ev.roots)
V == Valid(Ev.fs, Ev.roots, Ev.texts, Ev.main)
Statistic == PrintT("VF " \o ToJson([ev |-> Ev.ev, rule |-> "", what |-> IF V THEN "valid" ELSE "invalid", packages |-> Cardinality(PkgsOf)]))
Judge ==
  /\ i <= Len(Trace) /\ ~on
  /\ Statistic
  /\ LET v == V
         t == IF v /\ Ev.rc = 0 THEN PkgsOf \cup {0} ELSE {}
     IN  /\ IF v THEN Require(Ev.rc = 0, "valid imports are rejected", [rc |-> Ev.rc, stderr |-> Ev.stderr])
            ELSE Require(Ev.rc = 1, "imports that name no package, several packages or unknown symbols are accepted", [rc |-> Ev.rc, stderr |-> Ev.stderr])
         /\ IF t = {} THEN i' = i + 1 /\ UNCHANGED <<todo, on>> ELSE todo' = t /\ on' = TRUE /\ UNCHANGED i
Twins(d) == d # 0 /\ \E x \in PkgsOf \ {d} : Ev.fs[x].name.b = Ev.fs[d].name.b
Recorded(d) == {[n |-> Ev.dump[k].n, v |-> Ev.dump[k].v] : k \in {j \in DOMAIN Ev.dump :
                 IF d = 0 THEN Ev.dump[j].b = "main" ELSE IF Twins(d) THEN Ev.dump[j].d = d ELSE Ev.dump[j].b = Ev.fs[d].name.b}}
Package == /\ on /\ todo # {}
           /\ LET d == CHOOSE x \in todo : \A y \in todo : x <= y
                  e == Dump(Ev.fs, Ev.roots, Ev.texts, Ev.main, d)
              IN  /\ Require(Recorded(d) = e, "the constants of a package are not those of its sources", [package |-> IF d = 0 THEN <<>> ELSE PathOf(Ev.fs, d), expected |-> e, got |-> Recorded(d)])
                  /\ todo' = todo \ {d} /\ UNCHANGED <<i, on>>
Known(x) == x.b = "main" \/ \E d \in PkgsOf : x.d = d \/ Ev.fs[d].name.b = x.b
Close == /\ on /\ todo = {}
         /\ LET e == Instances(Ev.fs, Ev.roots, Ev.texts, Ev.main)
                o == {Ev.insts[k] : k \in DOMAIN Ev.insts}
            IN  Require(o = e, "an instance is not of the type its name qualifies", [expected |-> e, got |-> o])
         /\ \A k \in DOMAIN Ev.dump : Require(Known(Ev.dump[k]), "a directory is taken for a package", Ev.dump[k])
         /\ i' = i + 1 /\ on' = FALSE /\ UNCHANGED todo
Next == Judge \/ Package \/ Close
Spec == Init /\ [][Next]_vars
NotStuck == ENABLED Next \/ i > Len(Trace)
=============================================================================
