----------------------------- MODULE Weierstrass -----------------------------
(* The affine group law of y^2 = x^3 - 3x + b over any field, with an explicit *)
(* point at infinity, and the Jacobian formulas that avoid its divisions.      *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Fadd(_, _), Fsub(_, _), Fmul(_, _), Finv(_), F0, F1, F3, CurveB

Inf == <<>>                                      \* other points <<x, y>>
Sq(a) == Fmul(a, a)
Tw(a) == Fadd(a, a)
OnCurve(p) == p = Inf \/ Sq(p[2]) = Fadd(Fsub(Fmul(Sq(p[1]), p[1]), Fmul(F3, p[1])), CurveB)
Chord(p, q, lam) == LET x == Fsub(Fsub(Sq(lam), p[1]), q[1]) IN << x, Fsub(Fmul(lam, Fsub(p[1], x)), p[2]) >>
Double(p) == IF p = Inf \/ p[2] = F0 THEN Inf
             ELSE Chord(p, p, Fmul(Fmul(F3, Fsub(Sq(p[1]), F1)), Finv(Tw(p[2]))))
Plus(p, q) == IF p = Inf THEN q ELSE IF q = Inf THEN p
              ELSE IF p[1] = q[1] THEN (IF p[2] = q[2] THEN Double(p) ELSE Inf)
              ELSE Chord(p, q, Fmul(Fsub(q[2], p[2]), Finv(Fsub(q[1], p[1]))))
Opposite(p) == IF p = Inf THEN Inf ELSE <<p[1], Fsub(F0, p[2])>>
\* double and add; bits most significant first
Times(bits, p) == FoldLeft(LAMBDA a, k : LET d == Double(a) IN IF k = 1 THEN Plus(d, p) ELSE d, Inf, bits)

\* Jacobian coordinates <<X, Y, Z>> stand for (X/Z^2, Y/Z^3), or for infinity when Z = 0
ToAffine(j) == IF j[3] = F0 THEN Inf ELSE LET i == Finv(j[3]) IN <<Fmul(j[1], Sq(i)), Fmul(j[2], Fmul(i, Sq(i)))>>
JInf == <<F0, F1, F0>>
JOf(p) == IF p = Inf THEN JInf ELSE <<p[1], p[2], F1>>
Scaled(p, z) == <<Fmul(p[1], Sq(z)), Fmul(p[2], Fmul(z, Sq(z))), z>>       \* the same point, other coordinates
JDouble(p) ==
  LET delta == Sq(p[3])  gamma == Sq(p[2])  beta == Fmul(p[1], gamma)
      alpha == Fmul(F3, Fmul(Fsub(p[1], delta), Fadd(p[1], delta)))
      b4 == Tw(Tw(beta))
      x == Fsub(Sq(alpha), Tw(b4))
  IN  << x, Fsub(Fmul(alpha, Fsub(b4, x)), Tw(Tw(Tw(Sq(gamma))))), Fsub(Sq(Fadd(p[2], p[3])), Fadd(gamma, delta)) >>
\* only for different points: the formulas cannot add a point to itself
Addable(p, q) == p[3] = F0 \/ q[3] = F0 \/ ToAffine(p) # ToAffine(q)
JPlus(p, q) ==
  IF p[3] = F0 THEN q ELSE IF q[3] = F0 THEN p ELSE
  LET zz1 == Sq(p[3])  zz2 == Sq(q[3])
      u1 == Fmul(p[1], zz2)  u2 == Fmul(q[1], zz1)
      s1 == Fmul(Fmul(p[2], q[3]), zz2)  s2 == Fmul(Fmul(q[2], p[3]), zz1)
      h == Fsub(u2, u1)  i == Sq(Tw(h))  j == Fmul(h, i)
      r == Tw(Fsub(s2, s1))  v == Fmul(u1, i)
      x == Fsub(Fsub(Sq(r), j), Tw(v))
  IN  IF u1 = u2 THEN JInf
      ELSE << x, Fsub(Fmul(r, Fsub(v, x)), Fmul(Tw(s1), j)), Fmul(Fsub(Sq(Fadd(p[3], q[3])), Fadd(zz1, zz2)), h) >>
\* one step of the Montgomery ladder on a pair (nP, (n+1)P)
JLadder(s, k) == LET a == IF k = 1 THEN s[2] ELSE s[1]  b == IF k = 1 THEN s[1] ELSE s[2]
                     d == JDouble(a)  t == JPlus(a, b)
                 IN  IF k = 1 THEN <<t, d>> ELSE <<d, t>>
=============================================================================
