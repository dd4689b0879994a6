------------------------------ MODULE BitStrMC ------------------------------
(* All integers around the domain of all small widths. *)
EXTENDS BitStr, TLC, Json
CONSTANTS MAXW, EMIT
VARIABLES w, x
vars == <<w, x>>
Init == w = 1 /\ x = FromInt(-3)
Next == \/ BLess(x, BPow(Two, w + 1)) /\ x' = BAdd(x, FromInt(1)) /\ UNCHANGED w
        \/ x = BPow(Two, w + 1) /\ w < MAXW /\ w' = w + 1 /\ x' = BNeg(BAdd(BPow(Two, w + 1), FromInt(1)))
Spec == Init /\ [][Next]_vars

n == ToInt(x)
(* x fits exactly when it is congruent to a natural number below 2^w and is that number or its two's complement reading *)
FitsOK == Fits(x, w) <=> \E u \in 0 .. 2 ^ w - 1 : n = u \/ (u >= 2 ^ (w - 1) /\ n = u - 2 ^ w)
WidthOK == Fits(x, w) => BitLen(OfInt(x, w)) = w
ValueOK == Fits(x, w) => ToInt(BitsValue(OfInt(x, w))) = n % 2 ^ w
BitsOK == Fits(x, w) => /\ Len(BitsOf(OfInt(x, w))) = w
                        /\ BitsValue([p |-> "b", ds |-> BitsOf(OfInt(x, w))]) = Pattern(x, w)
                        /\ BitsValue([p |-> "b", ds |-> ExtendBits(BitsOf(OfInt(x, w)), w + 3)]) = Pattern(x, w)
RangeOK == ~x.neg => LET k == RangeWidth(<<[l |-> BZero, r |-> x]>>) IN n < 2 ^ k /\ (k = 0 \/ n >= 2 ^ (k - 1))
Emit == EMIT => PrintT("VF " \o ToJson([w |-> w, x |-> n]))
=============================================================================
