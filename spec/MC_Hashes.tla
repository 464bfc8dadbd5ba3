----------------------------- MODULE MC_Hashes -----------------------------
(* The hash specifications are what they ought to be: the computed constants  *)
(* satisfy their definitions, every step of the compression functions can be  *)
(* undone, longer outputs begin with the shorter ones, a digest is a state    *)
(* from which hashing goes on, and the MAC treats its keys as it must.        *)
EXTENDS HMAC, Blake2b, Keccak
CONSTANTS Top                    \* contents tried
VARIABLES kind, xx, yy           \* (see Force for the names)
vars == <<kind, xx, yy>>
Kinds == {"constant", "keccak", "sha", "blake", "chain", "xof", "mac"}
Init == kind \in Kinds /\ yy = -1 /\ xx \in IF kind = "constant" THEN 1..64 ELSE 0..Top
Ys(k) == CASE k = "constant" -> {0} [] k \in {"chain", "xof", "mac"} -> {0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 111, 112, 127, 128, 129, 135, 136, 137, 200}
           [] OTHER -> 0..9
Next == yy = -1 /\ yy' \in Ys(kind) /\ UNCHANGED <<kind, xx>>
Spec == Init /\ [][Next]_vars
Now(k) == kind = k /\ yy # -1
Made(n, k) == CASE k = 0 -> Rep(0, n) [] k = 1 -> Rep(255, n) [] k = 2 -> Force([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
                [] k = 3 -> Force([i \in 1..n |-> IF i = n THEN 128 ELSE 0])
                [] OTHER -> Force([i \in 1..n |-> ((((((k * 37) + (i * 101)) % 251) * (1 + ((i + k) % 7))) + (k * i * i)) % 256)])
MadeWords(n, w, k) == Force([i \in 1..n |-> CASE (i + k) % 7 = 0 -> Rep(0, w) [] (i + k) % 7 = 1 -> Rep(255, w) [] OTHER -> Made(w, i + k)])

----------------------------------------------------------------------------
(* constants *)
\* v is the k-th root of p in fixed point, with w fractional bytes
IsRoot(v, p, k, w) == LET q == Shl(N2B(p, 2), 8 * w * k, 40)
                          u == FullAdd(v, <<1>>)
                          raise(a) == Fit(IF k = 2 THEN FullMul(a, a) ELSE FullMul(FullMul(a, a), a), 40)
                      IN  Leq(raise(v), q) /\ ~Leq(raise(u), q)
Whole(p, k) == CHOOSE n \in 0..20 : (IF k = 2 THEN n * n ELSE n * n * n) <= p /\ p < (IF k = 2 THEN (n+1) * (n+1) ELSE (n+1) * (n+1) * (n+1))
Constants == Now("constant") =>
  LET p == Primes64[xx] IN
  /\ Cardinality({d \in 1..p : p % d = 0}) = 2 /\ (xx > 1 => \A q \in (Primes64[xx - 1] + 1)..(p - 1) : ~IsPrime(q))
  /\ IsRoot(K256[xx] \o <<Whole(p, 3)>>, p, 3, 4)
  /\ xx <= 8 => /\ IsRoot(H256[xx] \o <<Whole(p, 2)>>, p, 2, 4) /\ IsRoot(BIV[xx] \o <<Whole(p, 2)>>, p, 2, 8)
                /\ SubSeq(BIV[xx], 5, 8) = H256[xx]            \* the same root, further on
  /\ xx <= 10 => {Sigma0[xx][i] : i \in 1..16} = 0..15
  /\ xx <= 24 => \A i \in 0..63 : Bit(IotaRC[xx], i) = 1 => i \in {0, 1, 3, 7, 15, 31, 63}
\* the register runs through all its states; the walk through all lanes but one
Periods == Now("constant") /\ xx = 1 =>
  /\ Cardinality({SubSeq(LfsrBits \o LfsrBits, i, i + 7) : i \in 1..255}) = 255
  /\ {i \in 1..25 : RhoOff[i] = 0} = {1} /\ Cardinality({RhoOff[i] : i \in 1..25}) = 25

----------------------------------------------------------------------------
(* steps that can be undone *)
Iterate(F(_), s, n) == FoldLeft(LAMBDA u, i : F(u), s, Rep(0, n))
KeccakSteps == Now("keccak") /\ yy < 2 =>
  LET a == Force([i \in 1..25 |-> CASE (i * 3 + xx) % 11 = 0 -> Rep(255, 8) [] (i + xx) % 5 = yy -> Rep(0, 8) [] OTHER -> Made(8, (i * xx) + yy)]) IN
  /\ Iterate(Chi, a, 4) = a                                        \* order 4 on rows of five bits
  /\ Iterate(RhoPi, a, 24) = Force([i \in 1..25 |-> IF i = 1 THEN a[1] ELSE Rotl(a[i], 40, 8)])   \* all 24 offsets once: 2600 mod 64
  /\ yy = 0 => Iterate(Theta, a, 192) = a                          \* order 3w
  /\ KRound(KRound(a, IotaRC[1]), IotaRC[2]) # a
ThetaLinear == Now("keccak") =>
  LET a == MadeWords(25, 8, xx) b == MadeWords(25, 8, xx + yy + 1) s(u, v) == Force([i \in 1..25 |-> X8(u[i], v[i])]) IN
  Theta(s(a, b)) = s(Theta(a), Theta(b)) /\ RhoPi(s(a, b)) = s(RhoPi(a), RhoPi(b))
M4(a, b) == Sub(a, b, 4)
UnRound(s, k, w) ==
  LET a == s[2] b == s[3] c == s[4] e == s[6] f == s[7] g == s[8]
      t1 == M4(s[1], W4(BSig0(a), Maj(a, b, c)))
  IN  <<a, b, c, M4(s[5], t1), e, f, g, M4(M4(M4(M4(t1, BSig1(e)), Ch(e, f, g)), k), w)>>
ShaSteps == Now("sha") =>
  LET s == MadeWords(8, 4, xx + yy) blk == Made(64, xx) w == Schedule(blk) k == K256[(xx % 64) + 1] IN
  /\ UnRound(Round(s, k, w[yy + 1]), k, w[yy + 1]) = s
  /\ Len(w) = 64 /\ Concat(Force([i \in 1..16 |-> Rev(w[i])])) = blk
  \* the message comes back from the last sixteen words
  /\ FoldLeft(LAMBDA u, i : <<M4(M4(M4(u[16], SSig1(u[14])), u[9]), SSig0(u[1]))>> \o SubSeq(u, 1, 15), Force([i \in 1..16 |-> w[48 + i]]), Rep(0, 48))
       = Force([i \in 1..16 |-> w[i]])
MB(a, b) == Sub(a, b, 8)
UnG(v, a, b, c, d, mx, my) ==
  LET b1 == BX(Rotr(v[b], 1, 8), v[c])  c1 == MB(v[c], v[d])
      d1 == BX(Rotr(v[d], 48, 8), v[a]) a1 == MB(MB(v[a], b1), my)
      b0 == BX(Rotr(b1, 40, 8), c1)     c0 == MB(c1, d1)
      d0 == BX(Rotr(d1, 32, 8), a1)     a0 == MB(MB(a1, b0), mx)
  IN  [v EXCEPT ![a] = a0, ![b] = b0, ![c] = c0, ![d] = d0]
BlakeSteps == Now("blake") =>
  LET v == MadeWords(16, 8, xx) m == MadeWords(16, 8, xx + 5) IN
  /\ \A j \in 1..8 : LET q == GIdx[j] mx == m[BSigma(yy)[2*j-1] + 1] my == m[BSigma(yy)[2*j] + 1] IN
       UnG(G(v, q[1], q[2], q[3], q[4], mx, my), q[1], q[2], q[3], q[4], mx, my) = v
  /\ FoldLeft(LAMBDA u, i : LET j == 9 - i IN UnG(u, GIdx[j][1], GIdx[j][2], GIdx[j][3], GIdx[j][4], m[BSigma(yy)[2*j-1] + 1], m[BSigma(yy)[2*j] + 1]),
              BRound(v, m, yy), <<1,2,3,4,5,6,7,8>>) = v
  \* the offset of the block and the mark of the last one matter
  /\ LET h == MadeWords(8, 8, xx) b == Made(128, xx) IN
     Cardinality({BCompress(h, b, Add(N2B(yy, 16), Shl(<<1>>, k, 16), 16), f) : k \in {8, 31, 63, 64}, f \in BOOLEAN}) = 8

----------------------------------------------------------------------------
(* whole functions *)
\* hashing goes on from a digest: the digest of Pad(m) \o s is a function of that of m
ShaGoesOn == Now("chain") /\ xx < 6 =>
  LET m == Made(yy, xx) s == Made((xx * 29) + 3, xx + 1) all == Pad(m) \o s
      h == Force([i \in 1..8 |-> Rev(Block(SHA256(m), 4, i - 1))])
      rest == SubSeq(Pad(all), Len(Pad(m)) + 1, Len(Pad(all)))
  IN  SHA256(all) = Concat(Force([i \in 1..8 |-> Rev(FoldLeft(LAMBDA u, b : Compress(u, b), h, Blocks(rest, 64))[i])]))
\* the state after whole blocks is where the sponge goes on
SpongeGoesOn == Now("chain") /\ xx < 6 =>
  \A rate \in {72, 136, 168} : LET m == Made(yy, xx) p == SpongePad(m, rate, 6) n == Len(p) \div rate IN
    /\ Absorb(m, rate, 6) = KeccakF(XorBlock(FoldLeft(LAMBDA s, b : KeccakF(XorBlock(s, b)), State0, Blocks(SubSeq(p, 1, rate * (n - 1)), rate)), SubSeq(p, rate * (n - 1) + 1, rate * n)))
    /\ Absorb(m, rate, 6) # Absorb(m, rate, 31)
ShorterFirst == Now("xof") /\ xx < 6 =>
  LET m == Made(xx * 30, xx) IN
  \A b \in {128, 256} : LET long == SHAKE(m, b, yy + 170) IN Len(long) = yy + 170 /\ SHAKE(m, b, yy) = SubSeq(long, 1, yy)
\* keys: longer than a block by their digest, shorter ones filled up with zeros; no salt is a salt of zeros
Keys == Now("mac") /\ xx < 6 =>
  LET k == Made(yy, xx) m == Made(xx * 13, xx + 1) IN
  /\ Len(k) > 64 => HMAC(k, m) = HMAC(SHA256(k), m)
  /\ Len(k) < 64 => HMAC(k, m) = HMAC(k \o <<0>>, m)
  /\ Len(k) = 64 /\ xx > 0 => HMAC(k, m) # HMAC(SubSeq(k, 1, 63), m) \/ k[64] = 0
  /\ HkdfExtract(<<>>, m) = HkdfExtract(Rep(0, Min2(yy, 64)), m)
Expansion == Now("mac") /\ xx < 6 =>
  LET prk == Made(32 + xx, xx) info == Made(xx * 13, xx + 1) long == HkdfExpand(prk, info, yy + 40) IN
  /\ Len(long) = yy + 40 /\ HkdfExpand(prk, info, yy) = SubSeq(long, 1, yy)
  /\ SubSeq(long, 1, 32) = HMAC(prk, info \o <<1>>)
  /\ SubSeq(long, 33, Min2(64, Len(long))) = SubSeq(HMAC(prk, SubSeq(long, 1, 32) \o info \o <<2>>), 1, Min2(64, Len(long)) - 32)
=============================================================================
