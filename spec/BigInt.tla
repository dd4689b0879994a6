------------------------------- MODULE BigInt -------------------------------
(* Integers of any size (TLC has 32 bits): [neg, d], d the decimal digits of the magnitude, *)
(* least significant first, without leading zeros; zero is [FALSE, <<>>].                   *)
EXTENDS Integers, Sequences

BZero == [neg |-> FALSE, d |-> <<>>]

RECURSIVE Trim(_)
Trim(d) == IF d = <<>> THEN <<>> ELSE IF d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
BMax(a, b) == IF a > b THEN a ELSE b
Mk(neg, d) == [neg |-> neg /\ d # <<>>, d |-> d]

(* columns: sequence of natural column sums -> digits *)
RECURSIVE Carry(_, _, _)
Carry(cols, i, c) ==
  IF i > Len(cols) THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o Carry(cols, i, c \div 10))
  ELSE <<(cols[i] + c) % 10>> \o Carry(cols, i + 1, (cols[i] + c) \div 10)

MAdd(a, b) == Carry([i \in 1 .. BMax(Len(a), Len(b)) |-> At(a, i) + At(b, i)], 1, 0)
(* a >= b *)
RECURSIVE Borrow(_, _, _, _)
Borrow(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] - At(b, i) - c
       IN  IF x < 0 THEN <<x + 10>> \o Borrow(a, b, i + 1, 1) ELSE <<x>> \o Borrow(a, b, i + 1, 0)
MSub(a, b) == Trim(Borrow(a, b, 1, 0))

RECURSIVE MLessFrom(_, _, _)
MLessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE MLessFrom(a, b, i - 1)
MLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE MLessFrom(a, b, Len(a))

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) ==      \* sum of a[i]*b[k+1-i]
  IF i > Len(a) \/ i > k THEN 0
  ELSE (IF k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + ColSum(a, b, k, i + 1)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Trim(Carry([k \in 1 .. Len(a) + Len(b) - 1 |-> ColSum(a, b, k, 1)], 1, 0))

RECURSIVE SubTimes(_, _, _)     \* <<quotient digit, rest>>
SubTimes(r, b, q) == IF MLess(r, b) THEN <<q, r>> ELSE SubTimes(MSub(r, b), b, q + 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<Trim(q), r>>
  ELSE LET s == SubTimes(Trim(<<a[i]>> \o r), b, 0) IN DivFrom(a, b, i - 1, <<s[1]>> \o q, s[2])
MDivMod(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)      \* b # <<>>

RECURSIVE NatDigits(_)
NatDigits(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o NatDigits(n \div 10)
FromInt(n) == IF n < 0 THEN Mk(TRUE, NatDigits(-n)) ELSE Mk(FALSE, NatDigits(n))
RECURSIVE MToInt(_, _)
MToInt(d, i) == IF i > Len(d) THEN 0 ELSE d[i] + 10 * MToInt(d, i + 1)
IsSmall(x) == Len(x.d) <= 8
ToInt(x) == IF x.neg THEN -MToInt(x.d, 1) ELSE MToInt(x.d, 1)      \* of a small number

BNeg(x) == Mk(~x.neg, x.d)
BAdd(x, y) == IF x.neg = y.neg THEN Mk(x.neg, MAdd(x.d, y.d))
              ELSE IF MLess(x.d, y.d) THEN Mk(y.neg, MSub(y.d, x.d)) ELSE Mk(x.neg, MSub(x.d, y.d))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == Mk(x.neg # y.neg, MMul(x.d, y.d))
BLess(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN MLess(y.d, x.d) ELSE MLess(x.d, y.d)
BLeq(x, y) == ~BLess(y, x)
(* truncated division, y # 0 *)
BQuot(x, y) == Mk(x.neg # y.neg, MDivMod(x.d, y.d)[1])
BRem(x, y)  == Mk(x.neg, MDivMod(x.d, y.d)[2])
(* floor and ceiling of x/y *)
BFloor(x, y) == LET q == BQuot(x, y)
                IN IF BRem(x, y) # BZero /\ x.neg # y.neg THEN BSub(q, FromInt(1)) ELSE q
BCeil(x, y) == BNeg(BFloor(BNeg(x), y))
RECURSIVE BPow(_, _)
BPow(x, n) == IF n = 0 THEN FromInt(1) ELSE LET h == BPow(x, n \div 2) IN
              IF n % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), x)
RECURSIVE BFromDigits(_, _, _)        \* digits, most significant first, in base b
BFromDigits(b, ds, acc) == IF ds = <<>> THEN acc
                           ELSE BFromDigits(b, Tail(ds), BAdd(BMul(acc, FromInt(b)), FromInt(Head(ds))))
Two == FromInt(2)
Int64Max == BSub(BPow(Two, 63), FromInt(1))
Int64Min == BNeg(BPow(Two, 63))
InInt64(x) == BLeq(Int64Min, x) /\ BLeq(x, Int64Max)
(* digits of a natural number in base b (small), most significant first, exactly n of them (lower ones) *)
RECURSIVE BDigits(_, _, _)
BDigits(d, b, n) == IF n = 0 THEN <<>>
                    ELSE LET qr == MDivMod(d, NatDigits(b)) IN Append(BDigits(qr[1], b, n - 1), MToInt(qr[2], 1))
=============================================================================
