------------------------------ MODULE ImportsMC ------------------------------
(* All file systems of up to MAXN nodes, then a machine that looks for packages in any order of the entries, entering each  *)
(* directory once. C16: it finds exactly the packages, each once, whatever the order; the full path of a package names it.  *)
EXTENDS Imports, TLC, Json
CONSTANTS MAXN, EMIT
VARIABLES F, R, todo, visited, found, phase
vars == <<F, R, todo, visited, found, phase>>
Name(p, b, e) == [p |-> p, b |-> b, e |-> e]
DirNames == {Name(TRUE, "x", ""), Name(FALSE, "x", ""), Name(TRUE, "y", "")}
FileNames == {Name(FALSE, "a", ".fbd")}
LinkNames == {Name(TRUE, "x", ""), Name(FALSE, "l", ""), Name(FALSE, "b", ".fbd")}
Node(k, n, u, t) == [kind |-> k, name |-> n, up |-> u, to |-> t]
(* node 2 is the working directory *)
Init == F = <<Node("dir", Name(FALSE, "r", ""), 1, 0), Node("dir", Name(FALSE, "w", ""), 1, 0)>> /\ R = <<2>> /\ todo = {} /\ visited = {} /\ found = <<>> /\ phase = "build"
DirNodes == {n \in DOMAIN F : F[n].kind = "dir"}
Fresh(u, n) == \A m \in Entries(F, u) : ~SameName(F[m].name, n)
(* nodes are added in the order of a canonical enumeration: a later node is not under an earlier directory than the last one *)
Add == /\ phase = "build" /\ Len(F) < MAXN + 2
       /\ \E u \in {d \in DirNodes : d >= F[Len(F)].up} :
            \/ \E n \in DirNames : Fresh(u, n) /\ F' = Append(F, Node("dir", n, u, 0))
            \/ \E n \in FileNames : Fresh(u, n) /\ F' = Append(F, Node("file", n, u, 0))
            \/ \E n \in LinkNames : Fresh(u, n) /\ \E t \in (0 .. MAXN + 2) \ {1} : F' = Append(F, Node("link", n, u, t))
       /\ UNCHANGED <<R, todo, visited, found, phase>>
Begin == /\ phase = "build"
         /\ \E rs \in {<<2>>} \cup {<<2, n>> : n \in 3 .. Len(F)} : R' = rs /\ todo' = {<<rs[k]>> : k \in DOMAIN rs}
         /\ phase' = "look" /\ UNCHANGED <<F, visited, found>>
Visit == /\ phase = "look" /\ todo # {}
         /\ \E t \in todo :
              LET d == Resolve(F, t[1]) IN
              IF ~Is(F, d, "dir") \/ d \in visited THEN todo' = todo \ {t} /\ UNCHANGED <<visited, found>>
              ELSE /\ todo' = (todo \ {t}) \cup {<<n>> : n \in Entries(F, d)}
                   /\ visited' = visited \cup {d}
                   /\ found' = IF IsPackage(F, d) THEN Append(found, d) ELSE found
         /\ UNCHANGED <<F, R, phase>>
Finish == phase = "look" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<F, R, todo, visited, found>>
Next == Add \/ Begin \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"
C16_Found == Done => {found[k] : k \in DOMAIN found} = Packages(F, R) /\ Cardinality(Packages(F, R)) = Len(found)
C16_Once == \A j, k \in DOMAIN found : j # k => found[j] # found[k]
C16_Full == Done => \A d \in Packages(F, R) : Matching(F, R, PathOf(F, d)) = {d}
C16_Omit == Done => \A d \in Packages(F, R) : Matches(F, <<[F[d].name EXCEPT !.p = FALSE]>>, d)
Out == EMIT /\ phase = "look" /\ visited = {} /\ todo = {<<R[k]>> : k \in DOMAIN R} /\ (\E n \in DOMAIN F : F[n].name.p) /\ (\E n \in DOMAIN F : F[n].kind = "file") => PrintT("VF " \o ToJson([F |-> F, R |-> R]))
=============================================================================
