----------------------------- MODULE IdentityMC -----------------------------
(* The digest as nested concatenations: every functionality is serialized field by field, texts with their characters and  *)
(* numbers as one symbol, and digested into one symbol; a digest is modelled as injective. A bus of up to N functionalities *)
(* and one block is built, then edited in one aspect. C17_Aspect: the serialization changes with every aspect.              *)
(* Names and documentation are not delimited: functionalities whose name and documentation read alike are not told apart     *)
(* when they swap their places. C17_Same: it does not depend on the order in which functionalities of different kinds or constants are described.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, Kinds, Small
VARIABLES bus, bus2, aspect
vars == <<bus, bus2, aspect>>
Names == {<<"a">>, <<"a", "b">>} \cup (IF Small THEN {} ELSE {<<"b">>})
Docs == {<<>>, <<"b">>}
Inits == {<<>>, <<"0">>} \cup (IF Small THEN {} ELSE {<<"0", "0">>})
Fn(k, n, d, c, w, i) == [kind |-> k, name |-> n, doc |-> d, arr |-> c > 0, cnt |-> c, width |-> w, atomic |-> TRUE, init |-> i]
Blk == [name |-> <<"a">>, doc |-> <<>>, cnt |-> 0, masters |-> 1, consts |-> <<>>, fns |-> <<>>]
H(x) == <<[digest |-> x]>>
Num(n) == <<[number |-> n]>>
FuncSer(e) == H(e.name \o e.doc \o Num(IF e.cnt > 0 THEN 1 ELSE 0) \o Num(e.cnt))
(* registers in the order of the kinds, one per item *)
Kind(fns, k) == SelectSeq(fns, LAMBDA e : e.kind = k)
Ordered(fns) == Kind(fns, "config") \o Kind(fns, "static") \o Kind(fns, "status")
RECURSIVE Regs(_, _)
Regs(fns, i) == IF i = 0 THEN 0 ELSE Regs(fns, i - 1) + (IF fns[i].cnt > 0 THEN fns[i].cnt ELSE 1)
RECURSIVE FnsSer(_, _, _)
FnsSer(fns, i, a) == IF i > Len(fns) THEN <<>>
  ELSE LET e == fns[i]
           access == H(Num(a + Regs(fns, i - 1)) \o Num(Regs(fns, i) - Regs(fns, i - 1)) \o Num(e.width))
           body == CASE e.kind = "config" -> FuncSer(e) \o Num(IF e.atomic THEN 1 ELSE 0) \o e.init \o Num(e.width) \o access
                     [] e.kind = "static" -> FuncSer(e) \o e.init \o Num(e.width) \o access
                     [] OTHER -> FuncSer(e) \o Num(IF e.atomic THEN 1 ELSE 0) \o Num(e.width) \o access
       IN  H(body) \o FnsSer(fns, i + 1, a)
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x.n <= y.n IN <<m>> \o Sorted(s \ {m})
ConstSer(b) == LET s == Sorted({b.consts[i] : i \in DOMAIN b.consts}) IN H([i \in DOMAIN s |-> Num(s[i].v)[1]])
BlkSer(b, a) == H(FuncSer(b) \o Num(b.masters) \o ConstSer(b) \o FnsSer(Ordered(b.fns), 1, a) \o Num(Regs(b.fns, Len(b.fns))))
Ser(x) == H(FuncSer(x.b) \o Num(x.b.masters) \o ConstSer(x.b) \o FnsSer(Ordered(x.b.fns), 1, 1)
            \o (IF x.has THEN BlkSer(x.s, 1 + Regs(x.b.fns, Len(x.b.fns))) ELSE <<>>))
Size(x) == Len(x.b.fns) + Len(x.s.fns) + Len(x.b.consts) + Len(x.s.consts)
Init == bus = [b |-> Blk, s |-> Blk, has |-> FALSE] /\ bus2 = bus /\ aspect = ""
Fresh(x, n) == \A i \in DOMAIN x.fns : x.fns[i].name # n
AddFn(w) == /\ aspect = "" /\ Size(bus) < N /\ (w = "s" => bus.has)
            /\ \E k \in Kinds, n \in Names, d \in Docs, c \in {0, 2}, wd \in {1, 2}, i \in Inits :
                 /\ Fresh(bus[w], n) /\ (k = "status" => i = <<>>)
                 /\ bus' = [bus EXCEPT ![w].fns = Append(@, Fn(k, n, d, c, wd, i))]
            /\ bus2' = bus' /\ UNCHANGED aspect
AddConst(w) == /\ aspect = "" /\ Size(bus) < N /\ (w = "s" => bus.has)
               /\ \E n \in 1 .. 2, v \in 1 .. 2 : (\A i \in DOMAIN bus[w].consts : bus[w].consts[i].n # n) /\ bus' = [bus EXCEPT ![w].consts = Append(@, [n |-> n, v |-> v])]
               /\ bus2' = bus' /\ UNCHANGED aspect
AddBlock == aspect = "" /\ ~bus.has /\ bus' = [bus EXCEPT !.has = TRUE] /\ bus2' = bus' /\ UNCHANGED aspect
Edit(a, x) == aspect' = a /\ bus2' = x /\ UNCHANGED bus
EditFn(w) == aspect = "" /\ \E i \in DOMAIN bus[w].fns :
  LET e == bus[w].fns[i]
      put(x) == [bus EXCEPT ![w].fns[i] = x]
  IN  \/ \E n \in Names : Fresh(bus[w], n) /\ Edit("name", put([e EXCEPT !.name = n]))
      \/ \E d \in Docs : d # e.doc /\ Edit("doc", put([e EXCEPT !.doc = d]))
      \/ \E c \in {0, 1, 2, 3} : c # e.cnt /\ Edit("count", put([e EXCEPT !.cnt = c]))
      \/ \E wd \in {1, 2, 3} : wd # e.width /\ Edit("width", put([e EXCEPT !.width = wd]))
      \/ \E v \in Inits : v # e.init /\ e.kind # "status" /\ Edit("init value", put([e EXCEPT !.init = v]))
      \/ e.kind # "static" /\ Edit("atomicity", put([e EXCEPT !.atomic = ~@]))
      \/ \E j \in DOMAIN bus[w].fns : j < i /\ bus[w].fns[j].kind = e.kind /\ bus[w].fns[j].name \o bus[w].fns[j].doc # e.name \o e.doc /\ Edit("position", [bus EXCEPT ![w].fns = [@ EXCEPT ![i] = bus[w].fns[j], ![j] = e]])
      \/ \E j \in DOMAIN bus[w].fns : j < i /\ bus[w].fns[j].kind # e.kind /\ j + 1 = i /\ Edit("interleaving", [bus EXCEPT ![w].fns = [@ EXCEPT ![i] = bus[w].fns[j], ![j] = e]])
      \/ Edit("absence", [bus EXCEPT ![w].fns = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
EditBlk(w) == /\ aspect = "" /\ (w = "s" => bus.has)
              /\ \/ \E n \in Names : n # bus[w].name /\ Edit("name", [bus EXCEPT ![w].name = n])
                 \/ \E d \in Docs : d # bus[w].doc /\ Edit("doc", [bus EXCEPT ![w].doc = d])
                 \/ w = "s" /\ Edit("count", [bus EXCEPT ![w].cnt = 2])
                 \/ Edit("masters", [bus EXCEPT ![w].masters = 2])
                 \/ \E i \in DOMAIN bus[w].consts : Edit("constant", [bus EXCEPT ![w].consts[i].v = 3 - @])
                 \/ Len(bus[w].consts) = 2 /\ Edit("interleaving", [bus EXCEPT ![w].consts = <<@[2], @[1]>>])
Next == \E w \in {"b", "s"} : AddFn(w) \/ AddConst(w) \/ EditFn(w) \/ EditBlk(w) \/ AddBlock
Spec == Init /\ [][Next]_vars
C17_Aspect == aspect \notin {"", "interleaving"} => Ser(bus) # Ser(bus2)
C17_Same == aspect \in {"", "interleaving"} => Ser(bus) = Ser(bus2)
=============================================================================
