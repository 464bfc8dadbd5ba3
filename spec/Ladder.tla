------------------------------- MODULE Ladder -------------------------------
(* x-only arithmetic on a Montgomery curve y^2 = x^3 + A x^2 + x over any     *)
(* field: the ladder of RFC 7748 section 5, with A24 = (A - 2) / 4.           *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Fadd(_, _), Fsub(_, _), Fmul(_, _), F0, F1, A24

\* the state after some bits n of the scalar, before the pending swap: multiples n and n+1
Start(u) == [x2 |-> F1, z2 |-> F0, x3 |-> u, z3 |-> F1, swap |-> 0]
Step(s, x1, kt) ==
  LET sw == s.swap # kt
      x2 == IF sw THEN s.x3 ELSE s.x2   x3 == IF sw THEN s.x2 ELSE s.x3
      z2 == IF sw THEN s.z3 ELSE s.z2   z3 == IF sw THEN s.z2 ELSE s.z3
      a == Fadd(x2, z2)   aa == Fmul(a, a)
      b == Fsub(x2, z2)   bb == Fmul(b, b)
      e == Fsub(aa, bb)
      c == Fadd(x3, z3)   d == Fsub(x3, z3)
      da == Fmul(d, a)    cb == Fmul(c, b)
      p == Fadd(da, cb)   q == Fsub(da, cb)
  IN  [x3 |-> Fmul(p, p), z3 |-> Fmul(x1, Fmul(q, q)), x2 |-> Fmul(aa, bb),
       z2 |-> Fmul(e, Fadd(aa, Fmul(A24, e))), swap |-> kt]
\* numerator and denominator of the multiple n
Result(s) == IF s.swap = 1 THEN <<s.x3, s.z3>> ELSE <<s.x2, s.z2>>
Other(s)  == IF s.swap = 1 THEN <<s.x2, s.z2>> ELSE <<s.x3, s.z3>>
\* bits of the scalar, most significant first
Multiply(bits, x1) == Result(FoldLeft(LAMBDA s, k : Step(s, x1, k), Start(x1), bits))
=============================================================================
