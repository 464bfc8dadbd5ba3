---------------------------- MODULE MC_ByteNum ----------------------------
(* Every accelerated operator of ByteNum agrees with its TLA+ definition.    *)
(* One state per case: structured corner operands of every pair of lengths,  *)
(* plus pseudo-random ones.                                                  *)
EXTENDS ByteNum
CONSTANTS NRandom, MaxLen
VARIABLE i, a, b

\* A small linear congruential generator gives reproducible operands.
Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE Gen(_, _)
Gen(seed, n) == IF n = 0 THEN <<>> ELSE Append(Gen(Lcg(seed), n-1), (Lcg(seed) \div 64) % 256)
Corner(n) == { Rep(0, n), Rep(255, n),
               Force([k \in 1..n |-> IF k = 1 THEN 1 ELSE 0]),
               Force([k \in 1..n |-> IF k = n THEN 128 ELSE 0]),
               Force([k \in 1..n |-> IF k = n THEN 127 ELSE 255]) }
\* phase "seed" names a case, the step computes its operands (so TLC's workers share the cases)
Init == /\ a = <<>> /\ b = <<>>
        /\ i \in ({"corner"} \X (0..MaxLen) \X (0..MaxLen)) \cup ({"random"} \X (1..NRandom) \X {0})
Next == /\ i[1] # "done"
        /\ i' = <<"done", 0, 0>>
        /\ \/ i[1] = "corner" /\ a' \in Corner(i[2]) /\ b' \in Corner(i[3])
           \/ i[1] = "random" /\ a' = Gen(i[2] * 17, i[2] % (MaxLen + 1))
                              /\ b' = Gen(i[2] * 29 + 5, (i[2] \div (MaxLen + 1)) % (MaxLen + 1))

Widths == {1, 2, 4, Max2(Len(a), Len(b)), Len(a) + Len(b)} \ {0}
Shifts == {0, 1, 7, 9, 31, 8 * Len(a)}
Agree ==
  /\ \A w \in Widths :
       /\ Fit(a, w) = PFit(a, w)
       /\ Add(a, b, w) = PAdd(a, b, w)
       /\ Sub(a, b, w) = PSub(a, b, w)
       /\ Mul(a, b, w) = PMul(a, b, w)
       /\ BXor(a, b, w) = PXor(a, b, w)
       /\ BAnd(a, b, w) = PAnd(a, b, w)
       /\ BOr(a, b, w) = POr(a, b, w)
       /\ BNot(a, w) = PNot(a, w)
       /\ \A k \in Shifts : Shl(a, k, w) = PShl(a, k, w) /\ Shr(a, k, w) = PShr(a, k, w)
       /\ ~IsZero(b) => Div(a, b, w) = PDiv(a, b, w) /\ Mod(a, b, w) = PMod(a, b, w)
       /\ ~IsZero(b) => MulMod(a, a, b, w) = PMulMod(a, a, b, w)
  /\ \A k \in Shifts : Bit(a, k) = PBit(a, k)
  /\ Len(a) > 0 => \A k \in Shifts : Rotl(a, k, Len(a)) = PRotl(a, k, Len(a))
  /\ Cmp(a, b) = PCmp(a, b)
  /\ (Len(a) \in 1..2 /\ ~IsZero(b)) =>
        LET m == Add(b, <<3>>, Len(b) + 1)
        IN  PowMod(b, a, m, Len(m)) = PPowMod(b, a, m, Len(m))
\* algebra of the definitions themselves
Algebra ==
  /\ ~IsZero(b) => LET q == Div(a, b, Len(a)) r == Mod(a, b, Len(b))
                   IN  Lt(r, b) /\ Eq(Add(FullMul(q, b), r, Len(a) + Len(b) + 1), a)
  /\ Eq(Sub(FullAdd(a, b), b, Max2(Len(a), Len(b)) + 1), a)
  /\ Eq(FullMul(a, b), FullMul(b, a))
  /\ Len(a) > 0 => \A k \in Shifts : Rotr(Rotl(a, k, Len(a)), k, Len(a)) = a
=============================================================================
