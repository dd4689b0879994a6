------------------------------- MODULE BitStr -------------------------------
(* Bit strings: [p, ds]: p the base prefix "b", "o" or "x", ds the sequence of digit characters, most      *)
(* significant first; and the values of *-value properties, which are bit strings or integers.            *)
EXTENDS BigInt

BitsPer(p) == CASE p = "b" -> 1 [] p = "o" -> 3 [] p = "x" -> 4
BitLen(s) == Len(s.ds) * BitsPer(s.p)

DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
LowerOf(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c
IsDigit(c) == \E i \in 1 .. 16 : DigitChars[i] = LowerOf(c)
DigitVal(c) == (CHOOSE i \in 1 .. 16 : DigitChars[i] = LowerOf(c)) - 1
HasMeta(s) == \E i \in DOMAIN s.ds : ~IsDigit(s.ds[i])
Base(p) == 2 ^ BitsPer(p)

(* the natural number which a bit string without meta values denotes *)
BitsValue(s) == BFromDigits(Base(s.p), [i \in DOMAIN s.ds |-> DigitVal(s.ds[i])], BZero)

(* ------------------------ integers as bit strings ------------------------ *)
PrefixFor(w) == IF w % 4 = 0 THEN "x" ELSE IF w % 3 = 0 THEN "o" ELSE "b"
Fits(x, w) == /\ BLess(x, BPow(Two, w))
              /\ IF w = 0 THEN ~x.neg ELSE BLeq(BNeg(BPow(Two, w - 1)), x)
Pattern(x, w) == IF x.neg THEN BAdd(x, BPow(Two, w)) ELSE x
OfInt(x, w) ==
  LET p == PrefixFor(w)
      ds == BDigits(Pattern(x, w).d, Base(p), w \div BitsPer(p))
  IN  [p |-> p, ds |-> [i \in DOMAIN ds |-> DigitChars[ds[i] + 1]]]

LowerPrefix(p) == CASE p = "B" -> "b" [] p = "O" -> "o" [] p = "X" -> "x" [] OTHER -> p
(* a *-value property of a functionality of width w: accepted or not, and what is emitted *)
ValueOk(v, w) == IF v.t = "int" THEN Fits(v.v, w) ELSE BitLen(v) <= w
ValueOf(v, w) == IF v.t = "int" THEN OfInt(v.v, w) ELSE [p |-> v.p, ds |-> v.ds]
NoValue == [p |-> "", ds |-> <<>>]

(* ------------------------------- ranges -------------------------------- *)
(* the least number of bits in which x >= 0 can be represented *)
RECURSIVE BitsFor(_, _)
BitsFor(x, w) == IF BLess(x, BPow(Two, w)) THEN w ELSE BitsFor(x, w + 1)
RECURSIVE MaxEnd(_, _)
MaxEnd(rs, m) == IF rs = <<>> THEN m ELSE MaxEnd(Tail(rs), IF BLess(m, Head(rs).r) THEN Head(rs).r ELSE m)
RangeWidth(rs) == BitsFor(MaxEnd(rs, BZero), 0)     \* rs: sequence of [l, r]

(* ------------------------ operations on bit strings -------------------- *)
(* the bits of a string, most significant first; a meta value stands for that many equal meta bits *)
Expand(c, n) == IF IsDigit(c) THEN LET ds == BDigits(NatDigits(DigitVal(c)), 2, n) IN [i \in 1 .. n |-> DigitChars[ds[i] + 1]]
                ELSE [i \in 1 .. n |-> c]
RECURSIVE Bits(_, _)
Bits(s, i) == IF i > Len(s.ds) THEN <<>> ELSE Expand(s.ds[i], BitsPer(s.p)) \o Bits(s, i + 1)
BitsOf(s) == Bits(s, 1)
ExtendBits(bs, w) == [i \in 1 .. w - Len(bs) |-> "0"] \o bs
=============================================================================
