--------------------------------- MODULE AES ---------------------------------
(* FIPS 197 and SP 800-38A counter mode.  The S-box is computed from its     *)
(* definition (inverse in GF(2^8) followed by the affine map), not listed.   *)
EXTENDS ByteNum
X1(a, b) == a ^^ b
XTime(a) == IF a < 128 THEN 2 * a ELSE X1((2 * a) % 256, 27)        \* x * a mod x^8+x^4+x^3+x+1
GMul8(a, b) == FoldLeft(LAMBDA s, i : [p |-> IF (b \div Pow2(i)) % 2 = 1 THEN X1(s.p, s.a) ELSE s.p, a |-> XTime(s.a)],
                        [p |-> 0, a |-> a], <<0,1,2,3,4,5,6,7>>).p
GInv8(a) == IF a = 0 THEN 0                                           \* a^254
            ELSE FoldLeft(LAMBDA s, i : GMul8(s, a), 1, Rep(0, 254))
RotB(b, k) == ((b * Pow2(k)) % 256) + (b \div Pow2(8 - k))
Affine(b) == X1(X1(X1(X1(X1(b, RotB(b, 1)), RotB(b, 2)), RotB(b, 3)), RotB(b, 4)), 99)
SBox == Force([i \in 1..256 |-> Affine(GInv8(i - 1))])
Sub8(b) == SBox[b + 1]
Mul2 == Force([i \in 1..256 |-> XTime(i - 1)])
M2(b) == Mul2[b + 1]
SubBytes(s) == Force([i \in 1..Len(s) |-> Sub8(s[i])])
\* state byte r,c at index r + 4c + 1 (column major); row r rotates left by r
ShiftRows(s) == Force([i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4 IN s[r + 4 * ((c + r) % 4) + 1]])
MixColumn(c) == LET t == X1(X1(c[1], c[2]), X1(c[3], c[4]))
                IN  << X1(X1(c[1], t), M2(X1(c[1], c[2]))), X1(X1(c[2], t), M2(X1(c[2], c[3]))),
                       X1(X1(c[3], t), M2(X1(c[3], c[4]))), X1(X1(c[4], t), M2(X1(c[4], c[1]))) >>
MixColumns(s) == MixColumn(SubSeq(s,1,4)) \o MixColumn(SubSeq(s,5,8)) \o MixColumn(SubSeq(s,9,12)) \o MixColumn(SubSeq(s,13,16))
Rcon(i) == <<FoldLeft(LAMBDA s, j : XTime(s), 1, Rep(0, i - 1)), 0, 0, 0>>
RotWord(w) == <<w[2], w[3], w[4], w[1]>>
\* nk = 4 (AES-128), 8 (AES-256); Nr = nk + 6; result: 4*(Nr+1) words
KeyExpansion(key) ==
  LET nk == Len(key) \div 4
      w0 == Blocks(key, 4)
      step(w, i) ==      \* i: 0-based index of the new word
        LET t == w[i]
            t2 == IF i % nk = 0 THEN XorBytes(SubBytes(RotWord(t)), Rcon(i \div nk))
                  ELSE IF nk > 6 /\ i % nk = 4 THEN SubBytes(t) ELSE t
        IN  Append(w, XorBytes(w[i - nk + 1], t2))
  IN  FoldLeft(LAMBDA w, i : step(w, i), w0, Force([i \in 1..(4 * (nk + 7) - nk) |-> nk + i - 1]))
RoundKey(w, r) == w[4*r+1] \o w[4*r+2] \o w[4*r+3] \o w[4*r+4]
AESEncW(w, blk) ==                               \* w: expanded key
  LET nr == (Len(w) \div 4) - 1
      s0 == XorBytes(blk, RoundKey(w, 0))
      s1 == FoldLeft(LAMBDA s, r : XorBytes(MixColumns(ShiftRows(SubBytes(s))), RoundKey(w, r)),
                     s0, Force([r \in 1..(nr-1) |-> r]))
  IN  XorBytes(ShiftRows(SubBytes(s1)), RoundKey(w, nr))
AESBlock(key, blk) == AESEncW(KeyExpansion(key), blk)
BE32(c) == Rev(c)                                \* c: 4-byte number
\* counter block: 12-byte nonce and 32-bit big-endian counter (modulo 2^32), ctr a 4-byte number
CtrStream(w, nonce, ctr, n) ==
  Concat(Force([i \in 1..n |-> AESEncW(w, nonce \o BE32(Add(ctr, N2B(i - 1, 4), 4)))]))
AESCtr(key, nonce, ctr, msg) ==
  LET w == KeyExpansion(key)
  IN  XorBytes(msg, SubSeq(CtrStream(w, nonce, ctr, CeilDiv(Len(msg), 16)), 1, Len(msg)))
=============================================================================
