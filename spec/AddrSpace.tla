----------------------------- MODULE AddrSpace -----------------------------
(* Sizes and address spaces of a tree of blocks.  Node 1 is the main bus; nodes are       *)
(* numbered so that a parent precedes its children.  A node is                             *)
(*   [parent, own, cnt, align, rank]                                                       *)
(* (own: number of its registers; cnt: number of elements; align: 0 if unset; rank: order  *)
(* of its name among its siblings).  What is determined for it is                          *)
(*   [cum, aligned, start, end]                                                            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)

RECURSIVE Pow2From(_, _)
Pow2From(p, x) == IF p >= x THEN p ELSE Pow2From(2 * p, x)
Pow2Up(x) == IF x <= 0 THEN 0 ELSE Pow2From(1, x)
IsPow2(x) == x > 0 /\ Pow2From(1, x) = x
MultipleUp(x, a) == ((x + a - 1) \div a) * a

Children(t, i) == {j \in DOMAIN t : t[j].parent = i}
Align(t, i) == IF t[i].align # 0 THEN t[i].align ELSE t[1].align       \* the alignment in effect
NoAlign(t) == \A i \in DOMAIN t : t[i].align = 0
RECURSIVE Below(_, _)
Below(t, i) == {i} \cup UNION {Below(t, j) : j \in Children(t, i)}      \* a block with all blocks within

(* sizes of node i, when those of its children are known *)
InnerSize(t, r, i) == LET C == Children(t, i) IN SumSet(C, [j \in C |-> t[j].cnt * r[j].aligned])
CumSize(t, r, i)   == LET C == Children(t, i) IN t[i].own + SumSet(C, [j \in C |-> t[j].cnt * r[j].cum])
AlignedSize(t, r, i) ==
  LET s == InnerSize(t, r, i)
      a == Align(t, i)
  IN  IF a = 0 THEN Pow2Up(Pow2Up(t[i].own) + s) ELSE MultipleUp(t[i].own + s, a)
Span(t, r, i) == t[i].cnt * r[i].aligned

(* Children are placed from the end of the parent, from the biggest; bigger rank first among equals. *)
PlacedBefore(t, r, i, j) == r[i].aligned > r[j].aligned \/ (r[i].aligned = r[j].aligned /\ t[i].rank > t[j].rank)

(* -------------------------------- the machine -------------------------------- *)
(* state: r (results), todo: "size" n | "place" n *)
SizeStep(t, r, i) == [r EXCEPT ![i] = [@ EXCEPT !.cum = CumSize(t, r, i), !.aligned = AlignedSize(t, r, i)]]
PlaceRoot(t, r) == [r EXCEPT ![1] = [@ EXCEPT !.start = 0, !.end = Span(t, r, 1) - 1]]
(* places child j of i after those in done *)
PlaceStep(t, r, j) ==
  LET i == t[j].parent
      D == {c \in Children(t, i) : PlacedBefore(t, r, c, j)}
      e == r[i].end - SumSet(D, [c \in D |-> Span(t, r, c)])
  IN  [r EXCEPT ![j] = [@ EXCEPT !.start = e - Span(t, r, j) + 1, !.end = e]]

(* -------------------------------- C05 -------------------------------- *)
Elements(t, r, i) == 0 .. t[i].cnt - 1
ElemStart(t, r, i, k) == r[i].start + k * r[i].aligned
(* all children of i lie in one element of i, above its registers *)
Contained(t, r, i) ==
  Children(t, i) # {} =>
    \E k \in Elements(t, r, i) : \A j \in Children(t, i) :
        /\ r[j].start >= ElemStart(t, r, i, k) + t[i].own
        /\ r[j].end < ElemStart(t, r, i, k) + r[i].aligned
OwnFits(t, r, i) == t[i].own <= r[i].aligned
Disjoint(t, r, i) ==
  \A j, m \in Children(t, i) : j # m => r[j].end < r[m].start \/ r[m].end < r[j].start
ExactSpan(t, r, i) == r[i].end - r[i].start + 1 = Span(t, r, i)
Aligning(t, r, i) ==
  IF Align(t, i) # 0 THEN r[i].aligned = MultipleUp(t[i].own + InnerSize(t, r, i), Align(t, i))
  ELSE /\ r[i].aligned >= t[i].own + InnerSize(t, r, i)
       /\ (\A j \in Below(t, i) : Align(t, j) = 0) => (r[i].aligned = 0 \/ IsPow2(r[i].aligned))
       /\ (NoAlign(t) /\ r[i].aligned > 0) => r[i].start % r[i].aligned = 0
BlockOK(t, r, i) ==
  /\ ExactSpan(t, r, i) /\ OwnFits(t, r, i) /\ Contained(t, r, i) /\ Disjoint(t, r, i) /\ Aligning(t, r, i)
=============================================================================
