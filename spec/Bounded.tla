------------------------------- MODULE Bounded -------------------------------
(* Bounded integers: an integer is <<s, m>>, s = 1 for a negative number, m  *)
(* its magnitude as little-endian bytes without leading zeros (zero is       *)
(* <<0, <<>>>>).  A bounded type of `bits` bits holds the integers z with    *)
(* |z| < 2^bits, the unsigned ones only z >= 0.  Every operation is the      *)
(* integer operation followed by a range check.                              *)
EXTENDS ByteArray

Z(s, m) == LET t == Strip(m) IN <<IF t = <<>> THEN 0 ELSE s, t>>
ZNeg(a) == Z(1 - a[1], a[2])
ZAdd(a, b) ==
  IF a[1] = b[1] THEN Z(a[1], FullAdd(a[2], b[2]))
  ELSE LET w == Max2(Len(a[2]), Len(b[2])) IN
       IF Cmp(a[2], b[2]) >= 0 THEN Z(a[1], Sub(a[2], b[2], w)) ELSE Z(b[1], Sub(b[2], a[2], w))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(IF a[1] = b[1] THEN 0 ELSE 1, FullMul(a[2], b[2]))
ZIsZero(a) == a[2] = <<>>
\* truncated quotient, and the remainder that goes with it
ZQuo(a, b) == Z(IF a[1] = b[1] THEN 0 ELSE 1, Div(a[2], b[2], Len(a[2])))
ZRem(a, b) == ZSub(a, ZMul(ZQuo(a, b), b))
ZCmp(a, b) == CASE a[1] = 0 /\ b[1] = 1 -> 1 [] a[1] = 1 /\ b[1] = 0 -> -1
                [] a[1] = 0 /\ b[1] = 0 -> Cmp(a[2], b[2]) [] a[1] = 1 /\ b[1] = 1 -> Cmp(b[2], a[2])
\* residue in [0, n) for n > 0
ZModN(a, n) == LET m == Mod(a[2], n[2], Len(n[2])) IN
               Z(0, IF a[1] = 1 /\ ~IsZero(m) THEN Sub(n[2], m, Len(n[2])) ELSE m)
ZPow2(k) == Z(0, Pow2B(k, k \div 8 + 1))

InRange(z, bits, sg) == (8 * Len(z[2]) <= bits \/ (8 * (Len(z[2]) - 1) < bits /\ \A i \in bits..(8 * Len(z[2]) - 1) : Bit(z[2], i) = 0))
                        /\ (sg = 1 \/ z[1] = 0)

\* decimal text as character codes
RECURSIVE DecDigits(_)
DecDigits(m) == IF Len(m) = 0 THEN <<>>
                ELSE Append(DecDigits(Strip(Div(m, <<10>>, Len(m)))), 48 + Mod(m, <<10>>, 1)[1])
DecText(z) == IF ZIsZero(z) THEN <<48>> ELSE (IF z[1] = 1 THEN <<45>> ELSE <<>>) \o DecDigits(z[2])

----------------------------------------------------------------------------
(* the same operations on TLC's integers, for exhaustive small types *)
Fit4(x, bits, sg) == x < Pow2(bits) /\ x > -Pow2(bits) /\ (sg = 1 \/ x >= 0)
OutOfRange == -1000
ChkN(x, bits, sg) == IF Fit4(x, bits, sg) THEN x ELSE OutOfRange
RemN(x, y) == x - y * Quo(x, y)
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
SmallOp(f, x, y, bits, sg) ==
  CASE f = "add" -> ChkN(x + y, bits, sg)
    [] f = "sub" -> ChkN(x - y, bits, sg)
    [] f = "mul" -> ChkN(x * y, bits, sg)
    [] f = "div" -> IF y = 0 THEN OutOfRange ELSE ChkN(Quo(x, y), bits, sg)
    [] f = "rem" -> IF y = 0 THEN OutOfRange ELSE ChkN(RemN(x, y), bits, sg)
    [] f = "cmp" -> SignOf(x - y)
=============================================================================
