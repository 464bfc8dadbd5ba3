--------------------------- MODULE Trace_Examples ---------------------------
(* Recorded calls of the example programs of secret-integers: ChaCha20 in     *)
(* counter mode, and field multiplication in radix 2^51 (module Radix shows,  *)
(* on small words, that the method is right; here the result is judged).      *)
EXTENDS TraceRun, ChaCha
Init0(e) == <<>>
P25519x == Sub(Pow2B(255, 33), <<19>>, 33)
\* the number that five limbs of 8 bytes denote, 40 bytes wide
Value51(x) == FoldLeftDomain(LAMBDA s, i : Add(s, Shl(Fit(x[i], 40), 51 * (i - 1), 40), 40), Zero(40), x)
Below(v, k) == IsZero(Shr(v, k, Len(v)))                         \* v < 2^k
Out(s, e) ==
  CASE e.op = "stream" -> IF Len(e.k) = 32 /\ Len(e.n) = 12 THEN Ret(ChaCha20(e.k, e.c, e.n, e.m))
                          ELSE IF e.m = <<>> THEN Unspecified ELSE Panics
    [] e.op = "fmul" ->
         IF \E i \in 1..5 : ~Below(e.a[i], 54) \/ ~Below(e.b[i], 54) THEN Panics
         ELSE Require(/\ e.p = 0
                      /\ \A i \in 1..5 : Below(e.r[i], 52)
                      /\ Mod(Value51(e.r), P25519x, 33) = MulMod(Mod(Value51(e.a), P25519x, 33), Mod(Value51(e.b), P25519x, 33), P25519x, 33),
                      MulMod(Mod(Value51(e.a), P25519x, 33), Mod(Value51(e.b), P25519x, 33), P25519x, 33))
=============================================================================
