------------------------------- MODULE ElabMC -------------------------------
(* All small programs built node by node (a type chain, a main bus, nested instances), elaborated by Elab.tla.          *)
(* C18: the listing is the one of the program in which every instance of a type is replaced by the bodies of the types  *)
(* of its chain, from the base type to the instance; paths are unique and every functionality is listed once.           *)
EXTENDS Elab, Json
CONSTANTS MAXN, BODIES, EMIT          \* BODIES: names of kinds of the first type
VARIABLES P
Tok0 == [k |-> "id", x |-> "", s |-> 1, e |-> 1, l |-> 1, c |-> 1]
N0(k, p, n) == [Node(k, p, Tok0) EXCEPT !.name = n]
Num_(k) == <<[R("int", "") EXCEPT !.d = FromInt(k).d]>>
RECURSIVE Ancestors(_)
Ancestors(i) == IF i = 0 THEN {} ELSE {i} \cup Ancestors(P[i].p)
Open == {i \in Ancestors(Len(P)) : P[i].k \in {"type", "inst"}}             \* nodes are added in preorder
Types == {i \in DOMAIN P : P[i].k = "type"}
Main == {i \in DOMAIN P : P[i].k = "inst" /\ P[i].typ = "bus"}
Base(i) == LET c == Chain(P, i) IN BaseOf(P, c)
Names == <<"a", "b", "c", "e", "f", "g", "h">>
Kinds(b) == CASE b \in {"bus", "block"} -> {"config", "irq", "block", "group", "proc"} [] b = "group" -> {"config"} [] b = "proc" -> {"param", "return"} [] OTHER -> {}
Free(i) == {n \in {"x", "y"} : Named(P, i, "inst", n) = {}}
OneOf(S) == IF "x" \in S THEN {"x"} ELSE IF S = {} THEN {} ELSE {CHOOSE n \in S : TRUE}

Init == P = <<FileNode("main")>>
AddType == /\ Main = {} /\ \A i \in Open : P[i].k # "inst"
           /\ \E b \in (IF Types = {} THEN BODIES ELSE BODIES \cup {P[i].name : i \in Types}) :
                P' = Append(P, [N0("type", 1, IF Types = {} THEN "T" ELSE "U") EXCEPT !.typ = b, !.doc = "t"])
           /\ Cardinality(Types) < 2
AddMain == Main = {} /\ Types # {} /\ P' = Append(P, [N0("inst", 1, "Main") EXCEPT !.typ = "bus", !.doc = "m"])
AddInst(i) ==
  /\ i # 1
  /\ \E n \in OneOf(Free(i)) : \E t \in Kinds(Base(i)) \cup (IF P[i].k = "inst" THEN {P[j].name : j \in {m \in Types : Base(m) \in Kinds(Base(i))}} ELSE {}) :
       \E d \in {"", "d"} : P' = Append(P, [N0("inst", i, n) EXCEPT !.typ = t, !.doc = d, !.cnt = IF d = "d" /\ t \in {"T", "block"} THEN Num_(2) ELSE <<>>])
AddConst(i) == /\ i # 1 /\ Base(i) \in Exports /\ Named(P, i, "const", "K") = {} /\ P' = Append(P, [N0("const", i, "K") EXCEPT !.val = Num_(Len(P))])
AddProp(i) == /\ i # 1 /\ Base(i) \in {"block", "config", "bus"}
              /\ LET n == IF Base(i) = "config" THEN "width" ELSE "masters"
                 IN  Named(P, i, "prop", n) = {} /\ P' = Append(P, [N0("prop", i, n) EXCEPT !.val = Num_(3)])
Next == /\ Len(P) < MAXN
        /\ \/ AddType \/ AddMain \/ \E i \in Open : AddInst(i) \/ AddConst(i) \/ AddProp(i)
Spec == Init /\ [][Next]_P

(* ------------------------------ inlining ------------------------------ *)
(* Q with the bodies of the nodes of the sequence c (bodies of P) under the node k of Q *)
RECURSIVE Inline(_, _, _), InlineNode(_, _, _), InlineAll(_, _, _, _)
InlineAll(Q, is, j, k) == IF j > Len(is) THEN Q ELSE InlineAll(InlineNode(Q, is[j], k), is, j + 1, k)
InlineNode(Q, i, k) == IF P[i].k # "inst" THEN Append(Q, [P[i] EXCEPT !.p = k])
                       ELSE LET c == Chain(P, i) IN Inline(Append(Q, [P[i] EXCEPT !.p = k, !.typ = BaseOf(P, c)]), c, Len(Q) + 1)
Inline(Q, c, k) == IF c = <<>> THEN Q
                   ELSE LET t == c[Len(c)]
                            is == Kids(P, t, "prop") \o Kids(P, t, "const") \o Kids(P, t, "inst")
                        IN  Inline(InlineAll(Q, is, 1, k), SubSeq(c, 1, Len(c) - 1), k)
Flat == LET m == First(Main) IN InlineNode(<<P[1]>>, m, 1)

E0 == Elaborate(P, "Main")
RECURSIVE Total(_)          \* functionalities described by a node and its chain
SumOver(S, f) == LET RECURSIVE go(_) go(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN f[x] + go(s \ {x}) IN go(S)
Total(i) == LET c == Chain(P, i)
                ks == UNION {{j \in DOMAIN P : P[j].p = c[l] /\ P[j].k = "inst"} : l \in DOMAIN c}
            IN  1 + SumOver(ks, [j \in ks |-> Total(j)])
C18 == Main # {} => LET r == E0 IN
  r.errs = {} => LET q == Elaborate(Flat, "Main")
                     o == r.out
                 IN  /\ q.errs = {}
                     /\ q.out = o
                     /\ \A j, k \in DOMAIN o : o[j].path = o[k].path => j = k
                     /\ Len(o) = Total(First(Main)) + 1
Out == (EMIT /\ Main # {}) => PrintT("VF " \o ToJson([P |-> [k \in DOMAIN P |-> [k |-> P[k].k, p |-> P[k].p, name |-> P[k].name, typ |-> P[k].typ, doc |-> P[k].doc,
                                                               cnt |-> Len(P[k].cnt), v |-> IF P[k].val = <<>> THEN 0 ELSE ToInt([neg |-> FALSE, d |-> P[k].val[1].d])]]]))
=============================================================================
