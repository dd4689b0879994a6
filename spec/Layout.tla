------------------------------- MODULE Layout -------------------------------
(* Placement of the functionalities of one block into the registers of the bus.      *)
(*                                                                                     *)
(* A functionality is a record                                                         *)
(*   [kind, w, n, arr, atomic, en, expl, delay, ps, rs]                                *)
(* (w, n: width and count of an item; arr: array; en, expl: irq with enable, irq that  *)
(* is cleared explicitly; delay: delayed proc; ps, rs: params and returns, sequences of *)
(* [w, n, arr]).  Its placement is a record                                            *)
(*   [acs, ena, clr, call, exit, stb, ps, rs]                                          *)
(* (acs: access descriptor; ena: the one of the irq enable bit; clr, call, exit, stb:   *)
(* addresses or -1; ps, rs: sequences of access descriptors).                           *)
(*                                                                                     *)
(* The allocating machine has the state [addr, gaps, todo, out]; one step allocates one *)
(* functionality.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
LastOf(s) == s[Len(s)]

----------------------------------------------------------------------------
(* Access descriptors *)

NoAcs == [t |-> "", rc |-> 0, rw |-> 0, n |-> 0, iw |-> 0, sa |-> 0, ea |-> 0, sb |-> 0, eb |-> 0, srw |-> 0, erw |-> 0]

Acs(t, bw, rc, n, iw, sa, sb, eb, srw, erw) ==
  [t |-> t, rc |-> rc, rw |-> bw, n |-> n, iw |-> iw, sa |-> sa, ea |-> sa + rc - 1, sb |-> sb, eb |-> eb,
   srw |-> srw, erw |-> erw]

(* n*w bits packed contiguously from bit sb of register sa *)
Packed(t, bw, sa, sb, n, w) ==
  LET last == sb + n * w - 1
      rc   == last \div bw + 1
  IN  Acs(t, bw, rc, n, w, sa, sb, last % bw,
          IF rc = 1 THEN n * w ELSE bw - sb, IF rc = 1 THEN n * w ELSE (last % bw) + 1)

Single(bw, sa, sb, w) == Packed(IF sb + w <= bw THEN "SingleOneReg" ELSE "SingleNRegs", bw, sa, sb, 1, w)

ArrayNRegs(bw, sa, sb, n, w) == Packed("ArrayNRegs", bw, sa, sb, n, w)

(* Arrays which start in a register of their own.  oneReg: may be put into one register *)
Array(bw, sa, n, w, oneReg) ==
  IF oneReg /\ n * w <= bw
  THEN Packed("ArrayOneReg", bw, sa, 0, n, w)
  ELSE IF w > bw
  THEN LET per == CeilDiv(w, bw)
       IN  Acs("ArrayOneInNRegs", bw, n * per, n, w, sa, 0, (w - 1) % bw, bw, ((w - 1) % bw) + 1)
  ELSE LET per == bw \div w
           rc  == CeilDiv(n, per)
           m   == n - (rc - 1) * per      \* items in the end register
       IN  IF per = 1
           THEN Acs("ArrayOneInReg", bw, n, n, w, sa, 0, w - 1, w, w)
           ELSE Acs(IF m = per THEN "ArrayNInReg" ELSE "ArrayNInRegMInEndReg", bw, rc, n, w, sa, 0,
                    m * w - 1, IF rc = 1 THEN m * w ELSE per * w, m * w)

----------------------------------------------------------------------------
(* What a descriptor means: the cells of its items, as linear indices addr*bw + bit     *)

Contiguous == {"SingleOneReg", "SingleNRegs", "ArrayOneReg", "ArrayNRegs"}
OneRegTypes == {"SingleOneReg", "ArrayOneReg", "ArrayOneInReg", "ArrayNInReg", "ArrayNInRegMInEndReg"}
SingleTypes == {"SingleOneReg", "SingleNRegs"}
ArrayTypes  == {"ArrayOneReg", "ArrayNRegs", "ArrayOneInReg", "ArrayNInReg", "ArrayNInRegMInEndReg", "ArrayOneInNRegs"}

Meaningful(a, bw) ==
  /\ a.t \in SingleTypes \cup ArrayTypes
  /\ a.iw >= 1 /\ a.n >= 1 /\ a.sa >= 0 /\ a.sb >= 0 /\ a.sb < bw
  /\ a.t \in {"ArrayNInReg", "ArrayNInRegMInEndReg"} => a.iw <= bw
  /\ a.t \in SingleTypes => a.n = 1

ItemStart(a, bw, k) ==
  IF a.t \in Contiguous THEN a.sa * bw + a.sb + k * a.iw
  ELSE IF a.t = "ArrayOneInReg" THEN (a.sa + k) * bw + a.sb
  ELSE IF a.t = "ArrayOneInNRegs" THEN (a.sa + k * CeilDiv(a.iw, bw)) * bw + a.sb
  ELSE LET per == bw \div a.iw IN (a.sa + k \div per) * bw + a.sb + (k % per) * a.iw

ItemCells(a, bw, k) == LET s == ItemStart(a, bw, k) IN s .. s + a.iw - 1
Cells(a, bw) == IF ~Meaningful(a, bw) THEN {}
                ELSE IF a.t \in Contiguous THEN LET s == ItemStart(a, bw, 0) IN s .. s + a.n * a.iw - 1
                ELSE UNION {ItemCells(a, bw, k) : k \in 0 .. a.n - 1}
Regs(a, bw) == {c \div bw : c \in Cells(a, bw)}
InRegister(a, bw) ==       \* no item of a one-register type crosses a register boundary
  Meaningful(a, bw) /\ a.t \in OneRegTypes =>
    \A k \in 0 .. a.n - 1 : ItemStart(a, bw, k) \div bw = (ItemStart(a, bw, k) + a.iw - 1) \div bw

----------------------------------------------------------------------------
(* The allocating machine *)

(* A gap: the free bits bit..bw-1 of the end register of something. *)
Gap(addr, bit, safe) == [addr |-> addr, bit |-> bit, safe |-> safe]
GapWidth(g, bw) == bw - g.bit

(* Gaps are kept from the narrowest to the widest, the older first among equally wide ones. *)
AddGap(gaps, g, bw) ==
  LET n == Cardinality({i \in DOMAIN gaps : GapWidth(gaps[i], bw) <= GapWidth(g, bw)})
  IN  SubSeq(gaps, 1, n) \o <<g>> \o SubSeq(gaps, n + 1, Len(gaps))
AddRest(gaps, a, safe, bw) == IF a.eb < bw - 1 THEN AddGap(gaps, Gap(a.ea, a.eb + 1, safe), bw) ELSE gaps

Fits(gaps, w, needSafe, bw) == {i \in DOMAIN gaps : GapWidth(gaps[i], bw) >= w /\ (needSafe => gaps[i].safe)}
FirstFit(gaps, w, needSafe, bw) ==
  LET S == Fits(gaps, w, needSafe, bw) IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
RemoveGap(gaps, i) == SubSeq(gaps, 1, i - 1) \o SubSeq(gaps, i + 1, Len(gaps))

NoPlace == [acs |-> NoAcs, ena |-> NoAcs, clr |-> -1, call |-> -1, exit |-> -1, stb |-> -1, ps |-> <<>>, rs |-> <<>>]

(* params and returns: packed one after another; pos is the next free linear bit *)
RECURSIVE Pack(_, _, _)
Pack(bw, pos, items) ==
  IF items = <<>> THEN <<>>
  ELSE LET i == Head(items)
           a == IF i.arr THEN ArrayNRegs(bw, pos \div bw, pos % bw, i.n, i.w)
                         ELSE Single(bw, pos \div bw, pos % bw, i.w)
       IN  <<a>> \o Pack(bw, pos + i.n * i.w, Tail(items))

AllocCallable(st, f) ==
  LET bw   == st.bw
      all  == Pack(bw, st.addr * bw, f.ps \o f.rs)
      np   == Len(f.ps)
      nr   == Len(f.rs)
      ps   == SubSeq(all, 1, np)
      rs   == SubSeq(all, np + 1, np + nr)
      next == IF all = <<>> THEN st.addr + 1 ELSE LastOf(all).ea + 1
      call == IF np > 0 THEN LastOf(ps).ea ELSE IF nr = 0 \/ f.delay THEN st.addr ELSE -1
      exit == IF nr > 0 THEN LastOf(rs).ea ELSE IF f.delay THEN call ELSE -1
      stb  == IF all = <<>> THEN st.addr ELSE LastOf(all).ea
      pl   == IF f.kind = "proc" THEN [NoPlace EXCEPT !.ps = ps, !.rs = rs, !.call = call, !.exit = exit]
                                 ELSE [NoPlace EXCEPT !.ps = ps, !.rs = rs, !.stb = stb]
  IN  [st EXCEPT !.addr = next, !.out = Append(@, pl)]

NewRegs(st, a, addRest, safe) ==
  [st EXCEPT !.addr = st.addr + a.rc,
             !.gaps = IF addRest THEN AddRest(@, a, safe, st.bw) ELSE @,
             !.out  = Append(@, [NoPlace EXCEPT !.acs = a])]

AllocConfig(st, f) ==
  IF f.arr THEN NewRegs(st, Array(st.bw, st.addr, f.n, f.w, TRUE), FALSE, FALSE)
           ELSE NewRegs(st, Single(st.bw, st.addr, 0, f.w), TRUE, FALSE)

AllocMask(st, f) == NewRegs(st, Single(st.bw, st.addr, 0, f.w), FALSE, FALSE)

AllocStatic(st, f) ==
  IF f.arr THEN NewRegs(st, Array(st.bw, st.addr, f.n, f.w, FALSE), FALSE, FALSE)
           ELSE NewRegs(st, Single(st.bw, st.addr, 0, f.w), TRUE, TRUE)

AllocStatus(st, f) ==
  IF f.arr THEN NewRegs(st, Array(st.bw, st.addr, f.n, f.w, TRUE), FALSE, FALSE)
  ELSE LET i == FirstFit(st.gaps, f.w, FALSE, st.bw)
       IN  IF i = 0 THEN NewRegs(st, Single(st.bw, st.addr, 0, f.w), TRUE, TRUE)
           ELSE LET g == st.gaps[i]
                    a == Single(st.bw, g.addr, g.bit, f.w)
                IN  [st EXCEPT !.gaps = AddRest(RemoveGap(@, i), a, g.safe, st.bw),
                               !.out  = Append(@, [NoPlace EXCEPT !.acs = a])]

AllocIrq(st, f) ==
  LET bw == st.bw
      i  == IF ~f.en /\ f.expl THEN FirstFit(st.gaps, 1, TRUE, bw) ELSE 0
  IN  IF i # 0
      THEN LET g == st.gaps[i] IN
           [st EXCEPT !.gaps = RemoveGap(@, i),
                      !.out  = Append(@, [NoPlace EXCEPT !.acs = Single(bw, g.addr, g.bit, 1), !.clr = g.addr])]
      ELSE LET ea  == IF bw > 1 THEN st.addr ELSE st.addr + 1          \* register of the enable bit
               ca  == IF f.en THEN ea + 1 ELSE st.addr                 \* clear address
               lst == IF f.expl THEN ca ELSE IF f.en THEN ea ELSE st.addr
           IN  [st EXCEPT !.addr = lst + 1,
                          !.out  = Append(@, [NoPlace EXCEPT
                                      !.acs = Single(bw, st.addr, 0, 1),
                                      !.ena = IF f.en THEN Single(bw, ea, IF bw > 1 THEN 1 ELSE 0, 1) ELSE NoAcs,
                                      !.clr = IF f.expl THEN ca ELSE -1])]

(* One step: allocates the functionality f. *)
Alloc(st, f) ==
  CASE f.kind \in {"proc", "stream"} -> AllocCallable(st, f)
    [] f.kind = "config" -> AllocConfig(st, f)
    [] f.kind = "mask"   -> AllocMask(st, f)
    [] f.kind = "static" -> AllocStatic(st, f)
    [] f.kind = "status" -> AllocStatus(st, f)
    [] f.kind = "irq"    -> AllocIrq(st, f)

Start(bw, base) == [bw |-> bw, addr |-> base, gaps |-> <<>>, out |-> <<>>]

(* The order of allocation *)
KindRank(k) == CASE k = "proc" -> 0 [] k = "stream" -> 1 [] k = "config" -> 2 [] k = "mask" -> 3
                 [] k = "static" -> 4 [] k = "status" -> 5 [] k = "irq" -> 6
SortedKinds == {"config", "static", "status"}
Before(f, g) ==          \* f strictly before g whatever the order of declaration
  \/ KindRank(f.kind) < KindRank(g.kind)
  \/ /\ f.kind = g.kind /\ f.kind \in SortedKinds
     /\ \/ f.kind # "static" /\ f.atomic /\ ~g.atomic
        \/ /\ f.kind = "static" \/ f.atomic = g.atomic
           /\ \/ f.arr /\ ~g.arr
              \/ f.arr = g.arr /\ f.w > g.w
(* positions of the functionalities of fs in the order of allocation *)
RECURSIVE OrderFrom(_, _)
OrderFrom(fs, left) ==
  IF left = {} THEN <<>>
  ELSE LET i == CHOOSE x \in left : \A y \in left \ {x} : Before(fs[x], fs[y]) \/ (~Before(fs[y], fs[x]) /\ x < y)
       IN  <<i>> \o OrderFrom(fs, left \ {i})
Order(fs) == OrderFrom(fs, DOMAIN fs)

----------------------------------------------------------------------------
(* Properties of placements.  x is a sequence of records with the fields f and p: a     *)
(* functionality with its placement.                                                    *)

Parts(x) ==      \* all descriptors of a functionality
  IF x.f.kind \in {"proc", "stream"} THEN x.p.ps \o x.p.rs
  ELSE IF x.f.kind = "irq" /\ x.f.en THEN <<x.p.acs, x.p.ena>> ELSE <<x.p.acs>>
PartCells(x, bw) == UNION {Cells(Parts(x)[i], bw) : i \in DOMAIN Parts(x)}
PartBits(x, bw) == SumSeq([i \in DOMAIN Parts(x) |-> Cardinality(Cells(Parts(x)[i], bw))])

(* C01: stepwise; used is the set of the cells used before *)
InsideOwn(x, bw) ==
  /\ PartBits(x, bw) = Cardinality(PartCells(x, bw))                     \* parts do not overlap each other
  /\ \A i \in DOMAIN Parts(x) :
        LET a == Parts(x)[i] IN
        /\ InRegister(a, bw)
        /\ Meaningful(a, bw) => (a.n * a.iw = Cardinality(Cells(a, bw)))   \* nor do items
DisjointFrom(x, used, bw) == PartCells(x, bw) \cap used = {}
NoOverlap(xs, bw) ==
  /\ \A i \in DOMAIN xs : InsideOwn(xs[i], bw)
  /\ \A i, j \in DOMAIN xs : i < j => PartCells(xs[i], bw) \cap PartCells(xs[j], bw) = {}

(* C02 *)
CellRegs(x, bw) == {c \div bw : c \in PartCells(x, bw)}
Strobes(x) == {x.p.call, x.p.exit, x.p.stb} \ {-1}
Owned(x, bw) == CellRegs(x, bw) \cup Strobes(x) \cup ({x.p.clr} \ {-1})
(* y must not reach into what x needs for itself *)
Intrudes(x, y, bw) ==
  LET yr == Owned(y, bw) IN
  CASE x.f.kind \in {"proc", "stream"} -> (CellRegs(x, bw) \cup Strobes(x)) \cap yr # {}
    [] x.f.kind \in {"config", "mask"} -> y.f.kind \in {"config", "mask", "irq"} /\ CellRegs(x, bw) \cap yr # {}
    [] x.f.kind = "irq" ->
         \/ /\ x.f.expl                                        \* writes to the clear address
            /\ \/ y.f.kind \in {"config", "mask"} /\ x.p.clr \in CellRegs(y, bw)
               \/ y.f.kind = "irq" /\ y.f.en /\ x.p.clr \in Regs(y.p.ena, bw)
               \/ y.f.kind = "irq" /\ y.f.expl /\ x.p.clr = y.p.clr
         \/ /\ ~x.f.expl                                       \* reads of the register
            /\ y.f.kind = "irq" /\ ~y.f.expl /\ Regs(x.p.acs, bw) \cap Regs(y.p.acs, bw) # {}
         \/ /\ x.f.en                                          \* writes to the enable bit
            /\ y.f.kind \in {"config", "mask", "irq"}
            /\ LET er == Regs(x.p.ena, bw) IN
               \/ y.f.kind \in {"config", "mask"} /\ er \cap CellRegs(y, bw) # {}
               \/ y.f.kind = "irq" /\ y.f.en /\ er \cap Regs(y.p.ena, bw) # {}
    [] OTHER -> FALSE
SelfIntrudes(x, bw) ==         \* the clear write of an irq must not write its own enable bit
  x.f.kind = "irq" /\ x.f.en /\ x.f.expl /\ x.p.clr \in Regs(x.p.ena, bw)
Exclusive(xs, bw) ==
  /\ \A i \in DOMAIN xs : ~SelfIntrudes(xs[i], bw)
  /\ \A i, j \in DOMAIN xs : i # j => ~Intrudes(xs[i], xs[j], bw)

(* C03 *)
Describes(a, bw, n, w, arr) ==
  /\ Meaningful(a, bw)
  /\ a.t \in (IF arr THEN ArrayTypes ELSE SingleTypes)
  /\ a.n = n /\ a.iw = w /\ a.rw = bw
  /\ LET first == ItemStart(a, bw, 0)
         last  == ItemStart(a, bw, n - 1) + w - 1
         C     == Cells(a, bw)
     IN  /\ a.sa = first \div bw /\ a.sb = first % bw
         /\ a.ea = last \div bw  /\ a.eb = last % bw
         /\ a.rc = a.ea - a.sa + 1
         /\ \A k \in 1 .. n - 1 : ItemStart(a, bw, k) > ItemStart(a, bw, k - 1) + w - 1
         /\ a.srw = Cardinality({c \in C : c \div bw = a.sa})
         /\ a.erw = Cardinality({c \in C : c \div bw = a.ea})
         /\ a.t \in {"SingleOneReg", "ArrayOneReg"} => a.rc = 1
         /\ a.t = "SingleNRegs" => a.rc > 1
Described(x, bw) ==
  CASE x.f.kind \in {"proc", "stream"} ->
         /\ Len(x.p.ps) = Len(x.f.ps) /\ Len(x.p.rs) = Len(x.f.rs)
         /\ \A i \in DOMAIN x.f.ps : Describes(x.p.ps[i], bw, x.f.ps[i].n, x.f.ps[i].w, x.f.ps[i].arr)
         /\ \A i \in DOMAIN x.f.rs : Describes(x.p.rs[i], bw, x.f.rs[i].n, x.f.rs[i].w, x.f.rs[i].arr)
    [] x.f.kind = "irq" ->
         /\ Describes(x.p.acs, bw, 1, 1, FALSE)
         /\ IF x.f.en THEN Describes(x.p.ena, bw, 1, 1, FALSE) ELSE x.p.ena = NoAcs
    [] OTHER -> Describes(x.p.acs, bw, x.f.n, x.f.w, x.f.arr)

(* C04: the registers used by xs are exactly base .. own-1 *)
Used(xs, bw) == UNION {Owned(xs[i], bw) : i \in DOMAIN xs}
Counted(xs, bw, base, own) ==
  LET U == Used(xs, bw) IN
  IF own < base THEN FALSE ELSE U = base .. own - 1

(* C06 *)
CallableOK(x, bw) ==
  LET all == x.p.ps \o x.p.rs
      np == Len(x.p.ps)
      nr == Len(x.p.rs)
      end(a) == a.ea * bw + a.eb
      beg(a) == a.sa * bw + a.sb
  IN  /\ all # <<>> => all[1].sb = 0
      /\ \A i \in 2 .. Len(all) : beg(all[i]) = end(all[i - 1]) + 1
      /\ \A i \in DOMAIN all : end(all[i]) - beg(all[i]) + 1 = all[i].n * all[i].iw
      /\ IF x.f.kind = "stream"
         THEN /\ x.p.call = -1 /\ x.p.exit = -1
              /\ IF all = <<>> THEN x.p.stb >= 0 ELSE x.p.stb = LastOf(all).ea
         ELSE /\ x.p.stb = -1
              /\ IF np > 0 THEN x.p.call = LastOf(x.p.ps).ea
                 ELSE IF nr = 0 THEN x.p.call >= 0
                 ELSE IF x.f.delay THEN x.p.call = all[1].sa
                 ELSE x.p.call = -1
              /\ IF nr > 0 THEN x.p.exit = LastOf(x.p.rs).ea
                 ELSE IF x.f.delay THEN x.p.exit = x.p.call
                 ELSE x.p.exit = -1
=============================================================================
