----------------------------- MODULE MC_Ladder -----------------------------
(* Over small prime fields, on every Montgomery curve on which the ladder is  *)
(* complete and for every u (on the curve or on its twist): after the bits of *)
(* n the ladder holds the multiples n and n+1 of the point, as the chord and  *)
(* tangent law gives them.  A state is a field, a curve, a point and a prefix *)
(* of a scalar, so the invariant is the loop invariant of the ladder.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Primes, Bits, Broken
VARIABLES p, a24, u, d, n, len, lad
vars == <<p, a24, u, d, n, len, lad>>

Ad(x, y) == (x + y) % p
Su(x, y) == (x + p - y) % p
Mu(x, y) == (x * y) % p
L == INSTANCE Ladder WITH Fadd <- Ad, Fsub <- Su, Fmul <- Mu, F0 <- 0, F1 <- 1, A24 <- a24 + (IF Broken THEN 1 ELSE 0)

Inv(x) == IF x = 0 THEN 0 ELSE CHOOSE y \in 1..(p - 1) : Mu(x, y) = 1
Squares(q) == {(x * x) % q : x \in 0..(q - 1)}
CurveA == (4 * a24 + 2) % p
\* d y^2 = x^3 + A x^2 + x: the curve (d = 1) or its twist (d not a square)
Rhs(x) == (Mu(Mu(x, x), x) + CurveA * Mu(x, x) + x) % p
Inf == <<>>
Plus(P, Q) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ (P[2] # Q[2] \/ P[2] = 0) THEN Inf
  ELSE LET lam == IF P = Q THEN Mu((3 * Mu(P[1], P[1]) + 2 * CurveA * P[1] + 1) % p, Inv(Mu(2 * d, P[2])))
                           ELSE Mu(Su(Q[2], P[2]), Inv(Su(Q[1], P[1])))
           x == Su(Su(Su(Mu(d, Mu(lam, lam)), CurveA), P[1]), Q[1])
       IN  <<x, Su(Mu(lam, Su(P[1], x)), P[2])>>
RECURSIVE Times(_, _)
Times(k, P) == IF k = 0 THEN Inf ELSE Plus(Times(k - 1, P), P)
Base == LET y == CHOOSE y \in 0..(p - 1) : Mu(d, Mu(y, y)) = Rhs(u) IN <<u, y>>
X0(P) == IF P = Inf THEN 0 ELSE P[1]

Init == /\ p \in Primes
        /\ a24 \in 0..(p - 1)
        \* A^2 - 4 is not a square: the curve has one point of order two
        /\ LET A == (4 * a24 + 2) % p IN ((A * A + p * p - 4) % p) \notin Squares(p)
        /\ u \in 0..(p - 1)
        /\ d = IF Rhs(u) \in Squares(p) THEN 1 ELSE CHOOSE e \in 2..(p - 1) : e \notin Squares(p)
        /\ n = 0 /\ len = 0 /\ lad = L!Start(u)
Next == /\ len < Bits
        /\ \E k \in {0, 1} : n' = 2 * n + k /\ lad' = L!Step(lad, u, k)
        /\ len' = len + 1
        /\ UNCHANGED <<p, a24, u, d>>
Spec == Init /\ [][Next]_vars
Value(r) == Mu(r[1], Inv(r[2]))
LoopInvariant == /\ Value(L!Result(lad)) = X0(Times(n, Base))
                 /\ u # 0 => Value(L!Other(lad)) = X0(Times(n + 1, Base))
\* leading zero bits do not matter
Prefix == n = 0 => Value(L!Result(lad)) = 0
=============================================================================
