------------------------------- MODULE ScopeMC -------------------------------
(* Small programs from a template, instantiated with one mutable binding per type, as the compiler does:   *)
(* the chain is walked from the instance to the base type to bind parameters, then from the base type to    *)
(* the instance to set properties and instantiate inner functionalities, which bind anew.                *)
EXTENDS Scope, TLC, Json
CONSTANTS WIDE, EMIT
VARIABLES P, bind, stack, out, err
vars == <<P, bind, stack, out, err>>

Lit(n) == <<[q |-> "", n |-> "", v |-> n]>>
Ref(n) == <<[q |-> "", n |-> n, v |-> 0]>>
Add(a, b) == a \o b
QRef(q, n) == <<[q |-> q, n |-> n, v |-> 0]>>
Node == [kind |-> "inst", name |-> "", outer |-> 1, parent |-> [q |-> "", n |-> ""], args |-> <<>>, params |-> <<>>, consts |-> <<>>, props |-> <<>>,
         cnt |-> <<>>, pkg |-> "", imports |-> <<>>]
File(pkg, cs, imps) == [Node EXCEPT !.kind = "file", !.outer = 0, !.pkg = pkg, !.consts = cs, !.imports = imps]
Typ(n, o, p, ps, as) == [Node EXCEPT !.kind = "type", !.name = n, !.outer = o, !.parent = p, !.params = ps, !.args = as]
Ins(n, o, p, as) == [Node EXCEPT !.name = n, !.outer = o, !.parent = p, !.args = as]
T(n) == [q |-> "", n |-> n]
NE(n, e) == [n |-> n, e |-> e]
C(v) == <<NE("C", Lit(v))>>
Opt(s) == {<<>>} \cup {<<x>> : x \in s}
(* argument lists for a type with parameters p and q, q with a default *)
ArgLists(a, b) == {<<>>, <<NE("", a)>>, <<NE("", a), NE("", b)>>, <<NE("", b), NE("q", a)>>, <<NE("q", b), NE("p", a)>>, <<NE("p", b)>>}
BadLists(a) == {<<NE("", a), NE("p", a)>>, <<NE("q", a)>>, <<NE("", a), NE("r", a)>>, <<NE("p", a), NE("", a)>>, <<NE("", a), NE("", a), NE("", a)>>,
                <<NE("", a), NE("q", a), NE("q", a)>>}
Exprs == IF WIDE THEN {Ref("p"), Ref("C"), Add(Ref("p"), Ref("q")), Ref("X")} ELSE {Ref("p"), Add(Ref("C"), Ref("q"))}
(* file main (1): const C; type A(p, q = ..) config (2): width = ..; type B(p, q = 2) A(..) (3); type K(p = 3, q = C) block (4) with const C,   *)
(* c A(..) (5), d B(..) (6); Main bus (7) with const C, x K(..) (8), y K(..) (9), z B(..) (10); type J(p) A(p) (11) inside K, e J(..) (12) inside K *)
Programs ==
  {<<File("main", C(5), <<>>),
     [Typ("A", 1, T("config"), <<NE("p", <<>>), NE("q", da)>>, <<>>) EXCEPT !.props = <<NE("width", ea)>>],
     Typ("B", 1, T("A"), <<NE("p", <<>>), NE("q", Lit(2))>>, ab),
     [Typ("K", 1, T("block"), <<NE("p", Lit(3)), NE("q", dk)>>, <<>>) EXCEPT !.consts = ck],
     Ins("c", 4, T("A"), <<NE("", Add(Ref("p"), Ref("C")))>>),
     Ins("d", 4, T("B"), ad),
     [Ins("Main", 1, T("bus"), <<>>) EXCEPT !.consts = cm],
     Ins("x", 7, T("K"), ax), Ins("y", 7, T("K"), <<NE("q", Lit(20))>>), Ins("z", 7, T("B"), az),
     Typ("J", 4, T("A"), <<NE("p", <<>>)>>, <<NE("p", Add(Ref("p"), Ref("q")))>>),
     Ins("e", 4, T("J"), <<NE("", Ref("C"))>>)>> :
   da \in {Lit(1), Ref("p"), Ref("C")}, ea \in Exprs, dk \in {Ref("C"), Ref("p")},
   ab \in ArgLists(Ref("p"), Add(Ref("q"), Ref("C"))) \cup (IF WIDE THEN BadLists(Ref("p")) ELSE {}),
   ad \in (IF WIDE THEN ArgLists(Ref("q"), Ref("C")) \cup BadLists(Lit(1)) ELSE {<<NE("", Ref("p"))>>, <<NE("p", Ref("q")), NE("q", Ref("C"))>>}),
   ck \in {<<>>, C(7)}, cm \in {<<>>, C(9)},
   ax \in {<<>>, <<NE("", Ref("C"))>>, <<NE("p", Lit(4)), NE("q", Lit(6))>>, <<NE("r", Lit(4))>>},
   az \in {<<NE("", Ref("C"))>>, <<NE("", Lit(30)), NE("", Ref("C"))>>, <<>>}}
Main == 7
(* -------------------- the machine -------------------- *)
(* a frame: [i, path, c: chain, lv: level (Len(c): base), k: next item of the level] *)
Frame(i, path) == [i |-> i, path |-> path, c |-> Chain(P, i), lv |-> 0, k |-> 1, bk |-> 1]
Init == /\ P \in Programs /\ bind = Env0(P) /\ stack = <<>> /\ out = {} /\ err = "start"
Top == stack[1]
Pop == stack' = Tail(stack)
Set(f) == stack' = <<f>> \o Tail(stack)
Start == /\ err = "start"
         /\ IF StaticError(P) THEN err' = "static" /\ stack' = <<>> ELSE err' = "" /\ stack' = <<Frame(Main, <<"Main">>)>>
         /\ UNCHANGED <<P, bind, out>>
(* bind the parameters of c[bk + 1] *)
Bind == /\ err = "" /\ stack # <<>> /\ Top.lv = 0
        /\ IF Top.bk >= Len(Top.c) THEN Set([Top EXCEPT !.lv = Len(Top.c)]) /\ UNCHANGED <<bind, err>>
           ELSE LET i == Top.c[Top.bk]
                    t == Top.c[Top.bk + 1]
                    \* arguments are evaluated now, defaults are evaluated in the scope of the type with the bindings of the type
                    b == BindParams(P, bind, i, [bind EXCEPT ![t] = <<>>], t, 1)
                IN  /\ bind' = b
                    /\ Set([Top EXCEPT !.bk = @ + 1])
                    /\ err' = IF \E k \in DOMAIN b[t] : b[t][k] = <<>> THEN "value" ELSE ""
        /\ UNCHANGED <<P, out>>
Level == LET s == Top.c[Top.lv] IN LevelItems(P, bind, s, BaseOf(P, Top.i))
KidSeq(s) == LET ks == Kids(P, s) IN [n \in 1 .. Cardinality(ks) |-> CHOOSE k \in ks : Cardinality({m \in ks : m < k}) = n - 1]
Step == /\ err = "" /\ stack # <<>> /\ Top.lv > 0
        /\ LET it == Level
               ks == KidSeq(Top.c[Top.lv])
           IN  IF Top.k <= Len(it)
               THEN /\ out' = out \cup {[path |-> Top.path, what |-> it[Top.k].what, n |-> it[Top.k].n, v |-> it[Top.k].v]}
                    /\ err' = IF it[Top.k].v = <<>> THEN "value"
                              ELSE IF \E o \in out : o.path = Top.path /\ o.what = it[Top.k].what /\ o.n = it[Top.k].n THEN "twice" ELSE ""
                    /\ Set([Top EXCEPT !.k = @ + 1]) /\ UNCHANGED bind
               ELSE IF Top.k - Len(it) <= Len(ks)
               THEN LET kid == ks[Top.k - Len(it)]
                    IN  /\ stack' = <<Frame(kid, Append(Top.path, P[kid].name)), [Top EXCEPT !.k = @ + 1]>> \o Tail(stack)
                        /\ UNCHANGED <<bind, out, err>>
               ELSE /\ IF Top.lv = 1 THEN Pop ELSE Set([Top EXCEPT !.lv = @ - 1, !.k = 1])
                    /\ UNCHANGED <<bind, out, err>>
        /\ UNCHANGED P
Next == Start \/ Bind \/ Step
Spec == Init /\ [][Next]_vars
Done == err # "start" /\ (err # "" \/ stack = <<>>)

RECURSIVE Obs(_, _, _)
Obs(i, env, path) == LET it == Items(P, i, env)
                     IN  {[path |-> path, what |-> it[k].what, n |-> it[k].n, v |-> it[k].v] : k \in DOMAIN it}
                         \cup UNION {Obs(x.i, x.env, Append(path, P[x.i].name)) : x \in Inner(P, i, env)}
(* one mutable binding per type is as good as closures: no instance affects another *)
C09 == Done => IF StaticError(P) THEN err = "static"
               ELSE IF BadTree(P, Main, Env0(P), {}) THEN err # "" ELSE err = "" /\ out = Obs(Main, Env0(P), <<"Main">>)
Emit == EMIT /\ Done => PrintT("VF " \o ToJson([p |-> P]))
=============================================================================
