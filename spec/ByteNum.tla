------------------------------ MODULE ByteNum ------------------------------
(* Natural numbers and machine words as little-endian byte tuples.           *)
(*                                                                           *)
(* TLC's integers are 32 bit, the system under specification computes on     *)
(* words of 8..128 bits and naturals of up to ~1000 bits.  Everything here   *)
(* is defined in TLA+ on sequences of bytes (operators with prefix P).  The  *)
(* operators without the prefix are the ones the rest of the specification   *)
(* uses; they are *defined* to be the P-operators, and TLC may evaluate them *)
(* with java/VerifOverrides.java (BigInteger) instead.  MC_ByteNum.tla       *)
(* checks  Op(x) = POp(x)  in TLC, i.e. that accelerator and definition      *)
(* agree.                                                                    *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Bitwise

Byte == 0..255
\* (a parameter named like a variable of the root module would keep TLC from evaluating constants once)
Force(lazyValue) == TLCEval(lazyValue)

----------------------------------------------------------------------------
(* pure definitions *)

At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Pow2(k) == 2^k                                  \* k < 31

PFit(a, w) == Force([i \in 1..w |-> At(a, i)])   \* truncate / zero-extend
PZero(w) == Force([i \in 1..w |-> 0])

PAdd(a, b, w) ==                                 \* (a+b) mod 256^w
  LET step(s, i) == LET t == At(a,i) + At(b,i) + s.c
                    IN  [c |-> t \div 256, o |-> Append(s.o, t % 256)]
  IN  FoldLeftDomain(LAMBDA s, i : step(s, i), [c |-> 0, o |-> <<>>], PZero(w)).o

PNot(a, w) == Force([i \in 1..w |-> 255 - At(a, i)])
PSub(a, b, w) ==                                 \* (a-b) mod 256^w
  PAdd(PAdd(a, PNot(b, w), w), <<1>>, w)

PMul(a, b, w) ==                                 \* (a*b) mod 256^w, schoolbook
  LET row(acc, j) ==                             \* acc + a*b[j]*256^(j-1)
        LET step(s, i) == LET t == acc[i] + (IF i >= j THEN At(a, i-j+1) * At(b, j) ELSE 0) + s.c
                          IN [c |-> t \div 256, o |-> Append(s.o, t % 256)]
        IN FoldLeftDomain(LAMBDA s, i : step(s, i), [c |-> 0, o |-> <<>>], acc).o
  IN  FoldLeftDomain(LAMBDA acc, j : row(acc, j), PZero(w), PZero(Min2(w, Len(b))))

PCmp(a, b) ==                                    \* -1, 0, 1
  LET n == Max2(Len(a), Len(b))
  IN  FoldLeftDomain(LAMBDA s, i : IF At(a,i) < At(b,i) THEN -1
                                   ELSE IF At(a,i) > At(b,i) THEN 1 ELSE s, 0, PZero(n))

PXor(a, b, w) == Force([i \in 1..w |-> At(a,i) ^^ At(b,i)])
PAnd(a, b, w) == Force([i \in 1..w |-> At(a,i) & At(b,i)])
POr(a, b, w)  == Force([i \in 1..w |-> At(a,i) | At(b,i)])

PBit(a, k) == (At(a, (k \div 8) + 1) \div Pow2(k % 8)) % 2    \* bit k, 0-based

PShl(a, k, w) ==                                 \* (a * 2^k) mod 256^w
  LET q == k \div 8  r == k % 8
      at(i) == IF i >= 1 THEN At(a, i) ELSE 0
  IN  Force([i \in 1..w |-> ((at(i-q) * Pow2(r)) % 256) + (at(i-q-1) \div Pow2(8-r))])
PShr(a, k, w) ==                                 \* floor(a / 2^k), w bytes of it
  LET q == k \div 8  r == k % 8
  IN  Force([i \in 1..w |-> (At(a, i+q) \div Pow2(r)) + ((At(a, i+q+1) * Pow2(8-r)) % 256)])

\* quotient and remainder by restoring binary division; b # 0
PDivMod(a, b) ==
  LET n == 8 * Len(a)
      w == Max2(Len(a), Len(b)) + 1
      step(s, j) ==
        LET k  == n - j
            r1 == PAdd(PShl(s.r, 1, w), <<PBit(a, k)>>, w)
        IN  IF PCmp(r1, b) >= 0
            THEN [r |-> PSub(r1, b, w), q |-> PAdd(PShl(s.q, 1, w), <<1>>, w)]
            ELSE [r |-> r1, q |-> PShl(s.q, 1, w)]
  IN  FoldLeftDomain(LAMBDA s, j : step(s, j), [r |-> PZero(w), q |-> PZero(w)], PZero(n))
PDiv(a, b, w) == PFit(PDivMod(a, b).q, w)
PMod(a, b, w) == PFit(PDivMod(a, b).r, w)

PRotl(a, k, w) ==                                \* Len(a) = w, rotate left by k modulo width
  LET r == k % (8*w) IN IF r = 0 THEN a ELSE POr(PShl(a, r, w), PShr(a, 8*w - r, w), w)

PMulMod(a, b, m, w) == PMod(PMul(a, b, Len(a) + Len(b)), m, w)
PPowMod(a, e, m, w) ==                           \* a^e mod m, left-to-right square and multiply
  LET one  == PMod(<<1>>, m, w)
      n    == 8 * Len(e)
      step(s, j) == LET s2 == PMulMod(s, s, m, w)
                    IN  IF PBit(e, n - j) = 1 THEN PMulMod(s2, a, m, w) ELSE s2
  IN  FoldLeftDomain(LAMBDA s, j : step(s, j), one, PZero(n))

----------------------------------------------------------------------------
(* the operators used by the rest of the specification *)
Fit(a, w)          == PFit(a, w)
Add(a, b, w)       == PAdd(a, b, w)
Sub(a, b, w)       == PSub(a, b, w)
Mul(a, b, w)       == PMul(a, b, w)
Cmp(a, b)          == PCmp(a, b)
Div(a, b, w)       == PDiv(a, b, w)
Mod(a, b, w)       == PMod(a, b, w)
BXor(a, b, w)       == PXor(a, b, w)
BAnd(a, b, w)       == PAnd(a, b, w)
BOr(a, b, w)        == POr(a, b, w)
BNot(a, w)          == PNot(a, w)
Shl(a, k, w)       == PShl(a, k, w)
Shr(a, k, w)       == PShr(a, k, w)
Rotl(a, k, w)      == PRotl(a, k, w)
Bit(a, k)          == PBit(a, k)
MulMod(a, b, m, w) == PMulMod(a, b, m, w)
PowMod(a, e, m, w) == PPowMod(a, e, m, w)

----------------------------------------------------------------------------
(* derived, no accelerator *)
Zero(w) == PZero(w)
One(w) == Fit(<<1>>, w)
Ones(w) == BNot(<<>>, w)
IsZero(a) == \A i \in DOMAIN a : a[i] = 0
Eq(a, b) == Cmp(a, b) = 0
Lt(a, b) == Cmp(a, b) < 0
Leq(a, b) == Cmp(a, b) <= 0
N2B(n, w) == Force([i \in 1..w |-> IF i <= 4 THEN (n \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256 ELSE 0])  \* n < 2^31
B2N(a) == At(a,1) + 256 * At(a,2) + 65536 * At(a,3) + 16777216 * At(a,4)  \* value < 2^31
FullAdd(a, b) == Add(a, b, Max2(Len(a), Len(b)) + 1)
FullMul(a, b) == Mul(a, b, Len(a) + Len(b))
AddMod(a, b, m, w) == Mod(FullAdd(a, b), m, w)
SubMod(a, b, m, w) ==                            \* (a-b) mod m for reduced b
  Mod(Sub(FullAdd(a, m), b, Max2(Len(a), Len(m)) + 1), m, w)
Strip(a) ==                                      \* drop leading (most significant) zero bytes
  LET n == FoldLeftDomain(LAMBDA s, i : IF a[i] # 0 THEN i ELSE s, 0, a) IN SubSeq(a, 1, n)
Rotr(a, k, w) == Rotl(a, 8*w - (k % (8*w)), w)
Pow2B(k, w) == Shl(<<1>>, k, w)
Rev(s) == Force([i \in 1..Len(s) |-> s[Len(s) - i + 1]])
Rep(x, n) == Force([i \in 1..n |-> x])
\* n-th block of size k (0-based) of s, possibly short
Block(s, k, n) == SubSeq(s, n*k + 1, Min2(Len(s), (n+1)*k))
CeilDiv(n, k) == (n + k - 1) \div k
Blocks(s, k) == Force([i \in 1..CeilDiv(Len(s), k) |-> Block(s, k, i - 1)])
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
XorBytes(a, b) == BXor(a, b, Len(a))              \* bytewise on equal lengths
EndsUp(s, n) == s \o Rep(0, n - Len(s))          \* zero-pad to n
=============================================================================
