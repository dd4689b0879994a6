------------------------------- MODULE Imports -------------------------------
(* Packages and imports. A file system F is a sequence of nodes [kind: "dir" | "file" | "link", name, up, to]; node 1 is    *)
(* its root; a name is [p: begins with "fbd-", b: the rest, e: the extension]. A link with to = 0 is broken.                *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Follow(_, _, _)
Follow(F, n, fuel) == IF n = 0 \/ n > Len(F) \/ fuel = 0 THEN 0
                      ELSE IF F[n].kind = "link" THEN Follow(F, F[n].to, fuel - 1) ELSE n
Resolve(F, n) == Follow(F, n, Len(F) + 1)                     \* the directory or file behind a node, 0 when there is none
Is(F, n, k) == IF n = 0 THEN FALSE ELSE F[n].kind = k
Entries(F, d) == {n \in 2 .. Len(F) : F[n].up = d}
Below(F, d) == {x \in {Resolve(F, n) : n \in Entries(F, d)} : Is(F, x, "dir")}
RECURSIVE Closure(_, _)
Closure(F, S) == LET T == S \cup UNION {Below(F, d) : d \in S} IN IF T = S THEN S ELSE Closure(F, T)
Roots(F, R) == {x \in {Resolve(F, R[k]) : k \in DOMAIN R} : Is(F, x, "dir")}
Sources(F, d) == {n \in Entries(F, d) : F[n].name.e = ".fbd" /\ Is(F, Resolve(F, n), "file")}
IsPackage(F, d) == F[d].name.p /\ Sources(F, d) # {}
(* the packages: the fbd- directories with at least one source reachable from the roots *)
Packages(F, R) == {d \in Closure(F, Roots(F, R)) : IsPackage(F, d)}

RECURSIVE PathOf(_, _)
PathOf(F, d) == IF d = 1 THEN <<F[1].name>> ELSE Append(PathOf(F, F[d].up), F[d].name)
SameName(a, b) == a.p = b.p /\ a.b = b.b /\ a.e = b.e
(* an import path names a package by the last elements of its path; the prefix of the first element may be omitted *)
Matches(F, path, d) ==
  LET p == PathOf(F, d)
      k == Len(path)
      o == Len(p) - k
  IN  IF k > Len(p) THEN FALSE
      ELSE (path[1].b = p[o + 1].b /\ path[1].e = p[o + 1].e /\ (path[1].p => p[o + 1].p)) /\ \A j \in 2 .. k : SameName(path[j], p[o + j])
Matching(F, R, path) == {d \in Packages(F, R) : Matches(F, path, d)}

(* ------------------------------- programs ------------------------------- *)
(* C[n]: the contents of file n: [imports: sequence of [al, path], consts: sequence of [n, q, r, v], types: sequence of     *)
(* [n, v], insts: sequence of [n, q, r]]; a constant n has the value v, or the one of the constant r of the package          *)
(* imported as q (of its own package when q = ""); a type n is a config of the width v; the instances, in the main bus of    *)
(* the main file, are of the type r of the package imported as q.                                                          *)
(* Package 0 is the main package; its only source is the node M.                                                           *)
Files(F, M, d) == IF d = 0 THEN {M} ELSE Sources(F, d)
Alias(i) == IF i.al # "" THEN i.al ELSE i.path[1].b
Text(F, C, n) == C[Resolve(F, n)]
ImportsOk(F, R, c) == /\ \A k \in DOMAIN c.imports : Cardinality(Matching(F, R, c.imports[k].path)) = 1
                      /\ \A j, k \in DOMAIN c.imports : j # k => Alias(c.imports[j]) # Alias(c.imports[k])
Bound(F, R, c, q) == LET k == CHOOSE k \in DOMAIN c.imports : Alias(c.imports[k]) = q
                     IN  CHOOSE d \in Matching(F, R, c.imports[k].path) : TRUE
Imported(c, q) == \E k \in DOMAIN c.imports : Alias(c.imports[k]) = q
(* the constants of a package: [f: source, k: index] *)
Consts(F, C, M, d) == UNION {{[f |-> f, k |-> k] : k \in DOMAIN Text(F, C, f).consts} : f \in Files(F, M, d)}
Def(F, C, x) == Text(F, C, x.f).consts[x.k]
Named(F, C, M, d, n) == {x \in Consts(F, C, M, d) : Def(F, C, x).n = n}
Unique(F, C, M, d) == \A x, y \in Consts(F, C, M, d) : x # y => Def(F, C, x).n # Def(F, C, y).n
RECURSIVE Value(_, _, _, _, _, _)
Value(F, R, C, M, x, seen) ==      \* <<v>> or <<>>
  LET c == Text(F, C, x.f)
      e == Def(F, C, x)
      home == IF x.f = M THEN 0 ELSE F[x.f].up
      d == IF e.q = "" THEN home ELSE Bound(F, R, c, e.q)
  IN  IF e.r = "" THEN <<e.v>>
      ELSE IF x \in seen THEN <<>>
      ELSE IF e.q # "" /\ ~Imported(c, e.q) THEN <<>>
      ELSE LET y == Named(F, C, M, d, e.r) IN IF y = {} THEN <<>> ELSE Value(F, R, C, M, CHOOSE z \in y : TRUE, seen \cup {x})
Types(F, C, M, d) == UNION {{[f |-> f, k |-> k] : k \in DOMAIN Text(F, C, f).types} : f \in Files(F, M, d)}
TypeDef(F, C, x) == Text(F, C, x.f).types[x.k]
UniqueTypes(F, C, M, d) == \A x, y \in Types(F, C, M, d) : x # y => TypeDef(F, C, x).n # TypeDef(F, C, y).n
TypesNamed(F, R, C, M, i) ==       \* the types an instance names
  LET c == Text(F, C, M) IN
  IF i.q # "" /\ ~Imported(c, i.q) THEN {}
  ELSE LET d == IF i.q = "" THEN 0 ELSE Bound(F, R, c, i.q) IN {x \in Types(F, C, M, d) : TypeDef(F, C, x).n = i.r}
All(F, R) == Packages(F, R) \cup {0}
Valid(F, R, C, M) ==
  IF \E d \in All(F, R) : ~Unique(F, C, M, d) \/ ~UniqueTypes(F, C, M, d) \/ \E f \in Files(F, M, d) : ~ImportsOk(F, R, Text(F, C, f)) THEN FALSE
  ELSE /\ \A d \in All(F, R) : \A x \in Consts(F, C, M, d) : Value(F, R, C, M, x, {}) # <<>>
       /\ \A k \in DOMAIN C[M].insts : TypesNamed(F, R, C, M, C[M].insts[k]) # {}
Instances(F, R, C, M) == {LET i == C[M].insts[k] IN [n |-> i.n, w |-> TypeDef(F, C, CHOOSE x \in TypesNamed(F, R, C, M, i) : TRUE).v] : k \in DOMAIN C[M].insts}
Dump(F, R, C, M, d) == {[n |-> Def(F, C, x).n, v |-> Value(F, R, C, M, x, {})[1]] : x \in Consts(F, C, M, d)}
=============================================================================
