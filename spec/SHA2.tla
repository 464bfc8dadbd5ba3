-------------------------------- MODULE SHA2 --------------------------------
(* FIPS 180-4 SHA-256, written from the standard.  Words are 4-byte little-  *)
(* endian tuples (ByteNum); messages and digests are byte sequences.         *)
(* The round constants are not copied from anywhere: they are computed from  *)
(* their definition (fractional parts of cube/square roots of primes).       *)
EXTENDS ByteNum, FiniteSets

IsPrime(n) == n >= 2 /\ \A d \in 2..(n-1) : d * d <= n => n % d # 0
Primes64 == Force(SelectSeq([i \in 1..311 |-> i], IsPrime))       \* the first 64 primes

\* floor of the k-th root of v (k = 2, 3), 5-byte result, found bit by bit
Pow(a, k) == IF k = 2 THEN FullMul(a, a) ELSE FullMul(FullMul(a, a), a)
Root(v, k) == FoldLeft(LAMBDA r, j : LET c == BOr(r, Pow2B(39 - j, 5), 5)
                                     IN IF Leq(Pow(c, k), v) THEN c ELSE r,
                       Zero(5), Force([j \in 1..40 |-> j - 1]))
FracRoot(p, k) == Fit(Root(Shl(N2B(p, 2), 32 * k, 2 + 4 * k), k), 4)  \* first 32 fractional bits
K256 == Force([i \in 1..64 |-> FracRoot(Primes64[i], 3)])
H256 == Force([i \in 1..8 |-> FracRoot(Primes64[i], 2)])

W4(a, b) == Add(a, b, 4)
X4(a, b) == BXor(a, b, 4)
R4(a, k) == Rotr(a, k, 4)
Ch(x, y, z)  == X4(BAnd(x, y, 4), BAnd(BNot(x, 4), z, 4))
Maj(x, y, z) == X4(X4(BAnd(x, y, 4), BAnd(x, z, 4)), BAnd(y, z, 4))
BSig0(x) == X4(X4(R4(x, 2), R4(x, 13)), R4(x, 22))
BSig1(x) == X4(X4(R4(x, 6), R4(x, 11)), R4(x, 25))
SSig0(x) == X4(X4(R4(x, 7), R4(x, 18)), Shr(x, 3, 4))
SSig1(x) == X4(X4(R4(x, 17), R4(x, 19)), Shr(x, 10, 4))

Schedule(blk) ==                       \* blk: 64 bytes -> 64 words
  LET w0 == Force([t \in 1..16 |-> Rev(Block(blk, 4, t-1))])
  IN  FoldLeft(LAMBDA w, t : Append(w, W4(W4(SSig1(w[t-2]), w[t-7]), W4(SSig0(w[t-15]), w[t-16]))),
               w0, Force([t \in 1..48 |-> t + 16]))
Round(s, k, w) ==                      \* s = <<a,b,c,d,e,f,g,h>>
  LET t1 == W4(W4(W4(s[8], BSig1(s[5])), W4(Ch(s[5], s[6], s[7]), k)), w)
      t2 == W4(BSig0(s[1]), Maj(s[1], s[2], s[3]))
  IN  << W4(t1, t2), s[1], s[2], s[3], W4(s[4], t1), s[5], s[6], s[7] >>
Compress(h, blk) ==
  LET w == Schedule(blk)
      s == FoldLeftDomain(LAMBDA x, t : Round(x, K256[t], w[t]), h, w)
  IN  Force([i \in 1..8 |-> W4(h[i], s[i])])

\* 5.1.1: append 1, zeros, and the 64-bit big-endian bit length
PadLen(n) == LET r == (n + 9) % 64 IN IF r = 0 THEN 0 ELSE 64 - r      \* number of zero bytes
BitLenBE(n) == Rev(Shl(N2B(n, 8), 3, 8))
Pad(msg) == msg \o <<128>> \o Rep(0, PadLen(Len(msg))) \o BitLenBE(Len(msg))

SHA256(msg) ==
  LET h == FoldLeft(LAMBDA x, b : Compress(x, b), H256, Blocks(Pad(msg), 64))
  IN  Concat(Force([i \in 1..8 |-> Rev(h[i])]))
=============================================================================
