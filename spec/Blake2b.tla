------------------------------- MODULE Blake2b -------------------------------
(* RFC 7693, BLAKE2b, unkeyed, 64-byte digest.                               *)
EXTENDS SHA2
\* IV: the first 64 fractional bits of the square roots of the first 8 primes
Root9(v) == FoldLeft(LAMBDA r, j : LET c == BOr(r, Pow2B(71 - j, 9), 9) IN IF Leq(FullMul(c, c), v) THEN c ELSE r,
                     Zero(9), Force([j \in 1..72 |-> j - 1]))
BIV == Force([i \in 1..8 |-> Fit(Root9(Shl(N2B(Primes64[i], 2), 128, 18)), 8)])
\* RFC 7693 section 2.7
Sigma0 == << <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>,
             <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
             <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>,
             <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
             <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>,
             <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
             <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>,
             <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
             <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>,
             <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>
BSigma(r) == Sigma0[(r % 10) + 1]                \* r = 0..11
BA(a, b) == Add(a, b, 8)
BX(a, b) == BXor(a, b, 8)
G(v, a, b, c, d, x, y) ==
  LET a1 == BA(BA(v[a], v[b]), x)
      d1 == Rotr(BX(v[d], a1), 32, 8)
      c1 == BA(v[c], d1)
      b1 == Rotr(BX(v[b], c1), 24, 8)
      a2 == BA(BA(a1, b1), y)
      d2 == Rotr(BX(d1, a2), 16, 8)
      c2 == BA(c1, d2)
      b2 == Rotr(BX(b1, c2), 63, 8)
  IN  [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
GIdx == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
           <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
BRound(v, m, r) == FoldLeftDomain(LAMBDA u, j :
     G(u, GIdx[j][1], GIdx[j][2], GIdx[j][3], GIdx[j][4], m[BSigma(r)[2*j-1] + 1], m[BSigma(r)[2*j] + 1]), v, GIdx)
BCompress(h, blk, t, final) ==                   \* t: byte offset, a 16-byte number
  LET m == Blocks(blk, 8)
      v0 == h \o BIV
      v1 == [v0 EXCEPT ![13] = BX(v0[13], SubSeq(t, 1, 8)), ![14] = BX(v0[14], SubSeq(t, 9, 16)),
                       ![15] = IF final THEN BNot(v0[15], 8) ELSE v0[15]]
      v == FoldLeft(LAMBDA u, r : BRound(u, m, r), v1, <<0,1,2,3,4,5,6,7,8,9,10,11>>)
  IN  Force([i \in 1..8 |-> BX(h[i], BX(v[i], v[i+8]))])
\* parameter block: digest length 64, key length 0, fanout 1, depth 1
BH0 == [BIV EXCEPT ![1] = BX(BIV[1], <<64, 0, 1, 1>>)]
BLAKE2b(msg) ==
  LET n  == Max2(1, CeilDiv(Len(msg), 128))
      h  == FoldLeftDomain(LAMBDA h, i : BCompress(h, EndsUp(Block(msg, 128, i - 1), 128),
                 N2B(Min2(Len(msg), 128 * i), 16), i = n), BH0, Rep(0, n))
  IN  Concat(h)
=============================================================================
