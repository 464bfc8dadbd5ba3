----------------------------- MODULE MC_Algebra -----------------------------
(* The number systems of the specification satisfy the laws their users rely  *)
(* on.  "signed": integers as sign and magnitude agree with TLA+'s integers;  *)
(* "ring": residues as byte numbers form the commutative ring Z/nZ, with      *)
(* powers and inverses; "poly": polynomials over Z/nZ form a ring in which    *)
(* division with remainder is unique, with greatest common divisors; "range": *)
(* a bounded type holds exactly its integers and every operation is exact or  *)
(* out of range.                                                              *)
EXTENDS Poly, NatMod
CONSTANTS Ints, Moduli, PolyModuli, MaxDeg, Types
CornerInts == {-40000, -300, -257, -256, -255, -17, -16, -15, -3, -2, -1, 0, 1, 2, 3, 7, 15, 16, 17, 128, 255, 256, 257, 300, 40000}
SmallTypes == {<<4, 0>>, <<4, 1>>, <<8, 0>>, <<8, 1>>, <<9, 1>>}
VARIABLES kind, n, a, b, c, done
vars == <<kind, n, a, b, c, done>>

N2Z(x) == Z(IF x < 0 THEN 1 ELSE 0, N2B(IF x < 0 THEN -x ELSE x, 4))
Z2N(z) == (IF z[1] = 1 THEN -1 ELSE 1) * B2N(z[2])
Can(x) == Strip(N2B(x, 4))
Polys(m, d) == UNION {[1..k -> 0..(m - 1)] : k \in 0..(d + 1)}

Init == /\ c = <<>> /\ done = FALSE
        /\ \/ kind = "signed" /\ n = 0 /\ a \in Ints /\ b = <<>>
           \/ kind = "range" /\ n \in Types /\ a \in {z \in Ints : Fit4(z, n[1], n[2])} /\ b = <<>>
           \/ kind = "ring" /\ n \in Moduli /\ a \in 0..(n - 1) /\ b = <<>>
           \/ kind = "poly" /\ n \in PolyModuli /\ a \in Polys(n, MaxDeg) /\ b = <<>>
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, n, a>>
        /\ \/ kind = "signed" /\ b' \in Ints /\ c' = <<>>
           \/ kind = "range" /\ b' \in {z \in Ints : Fit4(z, n[1], n[2])} /\ c' = <<>>
           \/ kind = "ring" /\ b' \in 0..(n - 1) /\ c' \in 0..(n - 1)
           \/ kind = "poly" /\ b' \in Polys(n, MaxDeg) /\ c' \in Polys(n, 1)
Spec == Init /\ [][Next]_vars
Ready(k) == kind = k /\ done

Signed == Ready("signed") =>
  LET x == N2Z(a)  y == N2Z(b) IN
  /\ Z2N(x) = a /\ Z2N(ZAdd(x, y)) = a + b /\ Z2N(ZSub(x, y)) = a - b /\ Z2N(ZMul(x, y)) = a * b /\ Z2N(ZNeg(x)) = -a
  /\ ZCmp(x, y) = SignOf(a - b)
  /\ b # 0 => Z2N(ZQuo(x, y)) = Quo(a, b) /\ Z2N(ZRem(x, y)) = RemN(a, b) /\ a = Quo(a, b) * b + RemN(a, b)
  /\ b > 0 => Z2N(ZModN(x, y)) = a % b
  /\ ZAdd(x, y) = Z(ZAdd(x, y)[1], ZAdd(x, y)[2])                  \* results are in canonical form
Ranged == Ready("range") =>
  LET x == N2Z(a)  y == N2Z(b)
      Same(z, v) == IF InRange(z, n[1], n[2]) THEN v = Z2N(z) ELSE v = OutOfRange
  IN  /\ InRange(x, n[1], n[2])
      /\ Same(ZAdd(x, y), SmallOp("add", a, b, n[1], n[2])) /\ Same(ZSub(x, y), SmallOp("sub", a, b, n[1], n[2]))
      /\ Same(ZMul(x, y), SmallOp("mul", a, b, n[1], n[2]))
      /\ b # 0 => Same(ZQuo(x, y), SmallOp("div", a, b, n[1], n[2])) /\ Same(ZRem(x, y), SmallOp("rem", a, b, n[1], n[2]))
Ring == Ready("ring") =>
  LET m == Can(n)  x == Can(a)  y == Can(b)  z == Can(c)  one == Red(<<1>>, m) IN
  /\ NAdd(x, y, m) = Can((a + b) % n) /\ NSub(x, y, m) = Can((a + n - b) % n) /\ NMul(x, y, m) = Can((a * b) % n)
  /\ Canonical(NAdd(x, y, m), m) /\ Canonical(NSub(x, y, m), m) /\ Canonical(NMul(x, y, m), m)
  /\ NAdd(NAdd(x, y, m), z, m) = NAdd(x, NAdd(y, z, m), m)
  /\ NMul(NMul(x, y, m), z, m) = NMul(x, NMul(y, z, m), m)
  /\ NMul(x, NAdd(y, z, m), m) = NAdd(NMul(x, y, m), NMul(x, z, m), m)
  /\ NAdd(NSub(x, y, m), y, m) = x /\ NMul(x, one, m) = x
  /\ c < 8 => NPow(x, N2B(c, 1), m) = Can(PowN(a, c, n))
  /\ InvN(a, n) # -1 <=> \E i \in 0..(n - 1) : IsInverse(Can(i), x, m)
  /\ InvN(a, n) # -1 => IsInverse(Can(InvN(a, n)), x, m)
\* divisors need a leading coefficient that is a unit; the moduli are primes here
PolyRing == Ready("poly") =>
  /\ EqPoly(PolyAdd(a, b, n), PolyAdd(b, a, n)) /\ EqPoly(PolyMul(a, b, n), PolyMul(b, a, n))
  /\ EqPoly(PolyMul(PolyMul(a, b, n), c, n), PolyMul(a, PolyMul(b, c, n), n))
  /\ EqPoly(PolyMul(a, PolyAdd(b, c, n), n), PolyAdd(PolyMul(a, b, n), PolyMul(a, c, n), n))
  /\ EqPoly(PolyAdd(PolySub(a, b, n), b, n), a)
  /\ ~IsZeroPoly(a) /\ ~IsZeroPoly(b) => Degree(PolyMul(a, b, n)) = Degree(a) + Degree(b)
PolyDivision == Ready("poly") =>
  /\ ~IsZeroPoly(b) =>
       LET d == PolyDivMod(a, b, n) IN
       /\ DivisionLaw(a, b, d.q, d.r, n)
       \* unique: adding a multiple of b to the remainder breaks the law
       /\ ~IsZeroPoly(c) => ~DivisionLaw(a, b, PolySub(d.q, c, n), PolyAdd(d.r, PolyMul(c, b, n), n), n)
  /\ LET g == PolyGcd(Trim(a), Trim(b), n) IN
       ~IsZeroPoly(g) => /\ IsZeroPoly(PolyRem(a, g, n)) /\ IsZeroPoly(PolyRem(b, g, n))
                         /\ (~IsZeroPoly(c) /\ IsZeroPoly(PolyRem(a, c, n)) /\ IsZeroPoly(PolyRem(b, c, n))) => IsZeroPoly(PolyRem(g, c, n))
  \* the same over the big coefficients
  /\ LET Big(p) == Force([i \in 1..Len(p) |-> N2Z(p[i])])  nz == N2Z(n) IN
       /\ ZEqPoly(ZPolyMul(Big(a), Big(b), nz), Big(PolyMul(a, b, n)))
       /\ ZEqPoly(ZPolySub(Big(a), Big(b), nz), Big(PolySub(a, b, n)))
       /\ ~IsZeroPoly(b) => LET d == PolyDivMod(a, b, n) IN ZDivisionLaw(Big(a), Big(b), Big(d.q), Big(d.r), nz)
=============================================================================
