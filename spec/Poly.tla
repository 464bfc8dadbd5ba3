-------------------------------- MODULE Poly --------------------------------
(* Polynomials over Z and over Z/nZ as sequences of integer coefficients,    *)
(* lowest degree first.  Coefficients are TLC integers here (moduli up to    *)
(* 2^15); ZPoly does the same on the integers of module Bounded.             *)
EXTENDS Bounded

Co(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE 0
PolyLen(p, q) == Max2(Len(p), Len(q))
R(c, n) == IF n = 0 THEN c ELSE c % n               \* TLA+ %: in 0..n-1
PRed(p, n) == Force([i \in 1..Len(p) |-> R(p[i], n)])
PolyAdd(p, q, n) == Force([i \in 1..PolyLen(p, q) |-> R(Co(p, i) + Co(q, i), n)])
PolySub(p, q, n) == Force([i \in 1..PolyLen(p, q) |-> R(Co(p, i) - Co(q, i), n)])
\* length Len(p) + Len(q): the top coefficient is always zero
PolyMul(p, q, n) ==
  Force([k \in 1..(Len(p) + Len(q)) |->
     FoldLeftDomain(LAMBDA acc, i : IF k - i + 1 \in 1..Len(q) THEN R(acc + p[i] * q[k - i + 1], n) ELSE acc, 0, p)])
\* index of the highest coefficient that is not zero (0 if there is none)
Top(p) == FoldLeftDomain(LAMBDA acc, i : IF p[i] # 0 THEN i ELSE acc, 0, p)
Degree(p) == Top(p) - 1                              \* -1 for the zero polynomial
IsZeroPoly(p) == Top(p) = 0
EqPoly(p, q) == \A i \in 1..PolyLen(p, q) : Co(p, i) = Co(q, i)
Trim(p) == SubSeq(p, 1, Top(p))
Resize(p, k) == Force([i \in 1..k |-> Co(p, i)])
ReducedIn(p, n) == n = 0 \/ \A i \in DOMAIN p : p[i] \in 0..(n - 1)

\* extended Euclid on integers: <<g, s>> with g = s*a mod n
RECURSIVE EgcdN(_, _, _, _)
EgcdN(r0, r1, s0, s1) == IF r1 = 0 THEN <<r0, s0>> ELSE EgcdN(r1, r0 % r1, s1, s0 - (r0 \div r1) * s1)
UnitN(a, n) == GcdN(a % n, n) = 1
InvMod(a, n) == EgcdN(a % n, n, 1, 0)[2] % n         \* for units; 0 when n = 1

\* quotient and remainder by a polynomial whose leading coefficient is a unit
DivStep(s, q, lc, n) ==                              \* s.r has Top = s.k or less
  IF s.k < Len(q) THEN s
  ELSE LET t == (s.r[s.k] * lc) % n
           d == s.k - Len(q)
       IN  [r |-> Force([i \in 1..(s.k - 1) |-> IF i > d THEN R(s.r[i] - t * q[i - d], n) ELSE s.r[i]]),
            q |-> <<t>> \o s.q, k |-> s.k - 1]
PolyDivMod(p, q0, n) ==
  LET q == Trim(PRed(q0, n))
      a == PRed(p, n)
      lc == InvMod(q[Len(q)], n)
  IN  FoldLeftDomain(LAMBDA s, i : DivStep(s, q, lc, n), [r |-> a, q |-> <<>>, k |-> Len(a)], Rep(0, Max2(0, Len(a) - Len(q) + 1)))
PolyRem(p, q, n) == PolyDivMod(p, q, n).r

\* greatest common divisor of two polynomials over a prime field
RECURSIVE PolyGcd(_, _, _)
PolyGcd(p, q, n) == IF IsZeroPoly(q) THEN Trim(p) ELSE PolyGcd(Trim(q), Trim(PolyRem(p, q, n)), n)
Coprime(p, q, n) == Degree(PolyGcd(Trim(PRed(q, n)), Trim(PRed(p, n)), n)) = 0

\* what a division must satisfy
DivisionLaw(a, b, quo, rem, n) ==
  /\ ReducedIn(quo, n) /\ ReducedIn(rem, n)
  /\ EqPoly(PolyAdd(PolyMul(quo, b, n), rem, n), PRed(a, n))
  /\ (Degree(rem) < Max2(Degree(b), 0) \/ IsZeroPoly(rem))
\* what an inverse modulo irr must satisfy
InverseLaw(v, a, irr, n) ==
  /\ ReducedIn(v, n)
  /\ EqPoly(PolyRem(PolyMul(v, a, n), irr, n), IF n = 1 THEN <<>> ELSE <<1>>)

----------------------------------------------------------------------------
(* the same over arbitrarily large coefficients <<sign, magnitude>> *)
Z0 == <<0, <<>>>>
ZCo(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE Z0
ZR(c, n) == IF ZIsZero(n) THEN c ELSE ZModN(c, n)
ZPolyAdd(p, q, n) == Force([i \in 1..PolyLen(p, q) |-> ZR(ZAdd(ZCo(p, i), ZCo(q, i)), n)])
ZPolySub(p, q, n) == Force([i \in 1..PolyLen(p, q) |-> ZR(ZSub(ZCo(p, i), ZCo(q, i)), n)])
ZPolyMul(p, q, n) ==
  Force([k \in 1..(Len(p) + Len(q)) |->
     FoldLeftDomain(LAMBDA acc, i : IF k - i + 1 \in 1..Len(q) THEN ZR(ZAdd(acc, ZMul(p[i], q[k - i + 1])), n) ELSE acc, Z0, p)])
ZTop(p) == FoldLeftDomain(LAMBDA acc, i : IF p[i] # Z0 THEN i ELSE acc, 0, p)
ZPRed(p, n) == Force([i \in 1..Len(p) |-> ZR(p[i], n)])
ZReducedIn(p, n) == ZIsZero(n) \/ \A i \in DOMAIN p : ZModN(p[i], n) = p[i]
ZEqPoly(p, q) == \A i \in 1..PolyLen(p, q) : ZCo(p, i) = ZCo(q, i)
ZDivisionLaw(a, b, quo, rem, n) ==
  /\ ZEqPoly(ZPolyAdd(ZPolyMul(quo, b, n), rem, n), ZPRed(a, n))
  /\ ZTop(rem) < Max2(ZTop(b), 1)
  /\ ZReducedIn(quo, n) /\ ZReducedIn(rem, n)
=============================================================================
