----------------------------- MODULE MC_Ciphers -----------------------------
(* The cipher specifications are what they ought to be: the byte substitution *)
(* is the field inverse under an affine bijection, the column mixing and the  *)
(* row shift have inverses, the block cipher is a permutation under every     *)
(* key, the multiplication of GHASH is that of a field, the authenticators    *)
(* are polynomials in the key, and the ChaCha20 rounds can be undone.         *)
EXTENDS GCM, ChaCha
CONSTANTS Top, MulTop            \* values tried for whole blocks, and for products
VARIABLES kind, xx, yy             \* first a kind and xx, then yy and the laws (see Force for the names)
vars == <<kind, xx, yy>>
Kinds == {"byte", "block", "unit", "product", "core"}
Init == /\ yy = -1
        /\ \E k \in Kinds : /\ kind = k
                            /\ xx \in CASE k = "byte" -> 0..255 [] k = "unit" -> 0..127 [] k = "product" -> 0..MulTop [] OTHER -> 0..Top
Now(k) == yy # -1 /\ kind = k
Ys(k) == CASE k = "byte" -> {0, 1, 2, 3, 27, 128, 254, 255} [] k = "block" -> {16, 32} [] k = "unit" -> 0..127
           [] k = "product" -> 0..MulTop [] OTHER -> 0..3
Next == yy = -1 /\ yy' \in Ys(kind) /\ UNCHANGED <<kind, xx>>
Spec == Init /\ [][Next]_vars
\* some n bytes made from a number: corners first, then mixed
Made(n, k) == CASE k = 0 -> Rep(0, n) [] k = 1 -> Rep(255, n) [] k = 2 -> Force([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
                [] k = 3 -> Force([i \in 1..n |-> IF i = n THEN 128 ELSE 0])
                [] OTHER -> Force([i \in 1..n |-> ((((((k * 37) + (i * 101)) % 251) * (1 + ((i + k) % 7))) + (k * i * i)) % 256)])

----------------------------------------------------------------------------
(* AES *)
InvSBox == [b \in 1..256 |-> (CHOOSE a \in 0..255 : SBox[a + 1] = b - 1)]
FieldInverse == Now("byte") =>
  /\ (xx # 0 => GMul8(xx, GInv8(xx)) = 1) /\ GMul8(xx, yy) = GMul8(yy, xx) /\ GMul8(xx, 1) = xx
  /\ \A z \in {1, 3, 128, 255} : GMul8(xx, X1(yy, z)) = X1(GMul8(xx, yy), GMul8(xx, z)) /\ GMul8(GMul8(xx, yy), z) = GMul8(xx, GMul8(yy, z))
Substitution == Now("byte") =>
  /\ InvSBox[Sub8(xx) + 1] = xx /\ Sub8(xx) # xx /\ Sub8(xx) # 255 - xx               \* a permutation without (anti-)fixed points
  /\ Affine(X1(xx, yy)) = X1(X1(Affine(xx), Affine(yy)), 99)
UnmixColumn(c) == Force([r \in 1..4 |-> LET e(i) == c[((r + i - 2) % 4) + 1] IN X1(X1(GMul8(14, e(1)), GMul8(11, e(2))), X1(GMul8(13, e(3)), GMul8(9, e(4))))])
Columns == Now("byte") => \A r \in 1..4 :
  LET c == Force([i \in 1..4 |-> IF i = r THEN xx ELSE IF i = 4 THEN yy ELSE 0]) IN UnmixColumn(MixColumn(c)) = c
UnmixColumns(s) == UnmixColumn(SubSeq(s,1,4)) \o UnmixColumn(SubSeq(s,5,8)) \o UnmixColumn(SubSeq(s,9,12)) \o UnmixColumn(SubSeq(s,13,16))
UnshiftRows(s) == Force([i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4 IN s[r + 4 * ((c + 4 - r) % 4) + 1]])
UnsubBytes(s) == Force([i \in 1..16 |-> InvSBox[s[i] + 1]])
\* the inverse cipher of FIPS 197, section 5.3
AESDecW(w, blk) ==
  LET nr == (Len(w) \div 4) - 1
      s0 == XorBytes(blk, RoundKey(w, nr))
      s1 == FoldLeft(LAMBDA s, r : UnmixColumns(XorBytes(UnsubBytes(UnshiftRows(s)), RoundKey(w, nr - r))), s0, Force([r \in 1..(nr-1) |-> r]))
  IN  XorBytes(UnsubBytes(UnshiftRows(s1)), RoundKey(w, 0))
BlockCipher == Now("block") =>
  LET w == KeyExpansion(Made(yy, xx + 5)) b == Made(16, xx) IN
  /\ Len(w) = 4 * (yy \div 4 + 7) /\ Concat(SubSeq(w, 1, yy \div 4)) = Made(yy, xx + 5)
  /\ AESDecW(w, AESEncW(w, b)) = b /\ AESEncW(w, AESDecW(w, b)) = b
\* keystream: from a later counter on, the stream is the rest of the stream; encryption twice is nothing
CounterMode == Now("block") /\ xx < 8 =>
  LET k == Made(yy, xx + 3) n == Made(12, xx) m == Made((16 * (xx % 3)) + xx, xx + 1) c == <<255 - (xx % 2), 255, 255, 255>> IN
  /\ AESCtr(k, n, c, AESCtr(k, n, c, m)) = m
  /\ \A i \in 0..(Len(m) \div 16) : SubSeq(AESCtr(k, n, c, m), 16 * i + 1, Len(m)) = AESCtr(k, n, Add(c, N2B(i, 4), 4), SubSeq(m, 16 * i + 1, Len(m)))

----------------------------------------------------------------------------
(* GHASH: the products of the unit vectors fix a bilinear map *)
XPow(i) == Pow2B(i, 16)
FieldOne == XPow(127)
UnitLaws == Now("unit") =>
  /\ GMulN(XPow(xx), XPow(yy)) = GMulN(XPow(yy), XPow(xx))
  /\ yy = 0 => GMulN(XPow(xx), FieldOne) = XPow(xx) /\ GMulN(FieldOne, XPow(xx)) = XPow(xx)
  \* x^i x^j = x^(i+j) as long as nothing is reduced, then the polynomial 1 + x + x^2 + x^7 + x^128
  /\ (127 - xx) + (127 - yy) <= 127 => GMulN(XPow(xx), XPow(yy)) = XPow(xx + yy - 127)
  /\ yy = 126 /\ xx = 0 => GMulN(XPow(0), XPow(126)) = RPoly
ProductLaws == Now("product") =>
  LET a == Made(16, xx) b == Made(16, yy) c == Made(16, xx + yy + 4) IN
  /\ GMulN(GMulN(a, b), c) = GMulN(a, GMulN(b, c))
  /\ GMulN(a, BXor(b, c, 16)) = BXor(GMulN(a, b), GMulN(a, c), 16)
\* the tag is a polynomial in the key, without constant term
RECURSIVE GPow(_, _)
GPow(h, n) == IF n = 0 THEN FieldOne ELSE GMulN(GPow(h, n - 1), h)
HashIsPolynomial == Now("product") /\ yy < 6 =>
  LET h == Made(16, xx) n == 1 + (yy % 4) bs == Force([i \in 1..n |-> Made(16, i + xx + yy)]) IN
  GHashBlocks(h, bs) = FromN(FoldLeftDomain(LAMBDA s, i : BXor(s, GMulN(ToN(bs[i]), GPow(ToN(h), n + 1 - i)), 16), Zero(16), bs))

----------------------------------------------------------------------------
(* ChaCha20 and Poly1305 *)
SomeWord(k) == CASE k % 5 = 0 -> <<0, 0, 0, 0>> [] k % 5 = 1 -> <<255, 255, 255, 255>> [] OTHER -> Made(4, k + 4)
UnCX(d, a, k) == BXor(Rotr(d, k, 4), a, 4)
CS(a, b) == Sub(a, b, 4)
UnQR(s, a, b, c, d) ==
  LET b1 == UnCX(s[b], s[c], 7)   c1 == CS(s[c], s[d])
      d1 == UnCX(s[d], s[a], 8)   a1 == CS(s[a], b1)
      b0 == UnCX(b1, c1, 12)      c0 == CS(c1, d1)
      d0 == UnCX(d1, a1, 16)      a0 == CS(a1, b0)
  IN  [s EXCEPT ![a] = a0, ![b] = b0, ![c] = c0, ![d] = d0]
Core == Force([i \in 1..16 |-> SomeWord((xx * 3) + (i * (yy + 1)))])
UndoRound(s) == FoldLeft(LAMBDA u, q : UnQR(u, q[1], q[2], q[3], q[4]), s, Rev(QRIdx))
Rounds == Now("core") =>
  /\ \A i \in DOMAIN QRIdx : LET q == QRIdx[i] IN UnQR(QR(Core, q[1], q[2], q[3], q[4]), q[1], q[2], q[3], q[4]) = Core
  /\ UndoRound(DoubleRound(Core)) = Core
  /\ FoldLeft(LAMBDA u, i : UndoRound(u), CInner(Core), Rep(0, 10)) = Core
  \* the quarter rounds of a round touch every word once
  /\ \A h \in {1, 5} : {QRIdx[h + i][j] : i \in 0..3, j \in 1..4} = 1..16
Stream == Now("core") /\ xx < 8 =>
  LET k == Made(32, xx + 3) n == Made(12, xx) m == Made((64 * yy) + xx, xx + 1) c == <<255 - (xx % 2), 255, 255, 255>> IN
  /\ ChaCha20(k, c, n, ChaCha20(k, c, n, m)) = m
  /\ \A i \in 0..(Len(m) \div 64) : SubSeq(ChaCha20(k, c, n, m), 64 * i + 1, Len(m)) = ChaCha20(k, Add(c, N2B(i, 4), 4), n, SubSeq(m, 64 * i + 1, Len(m)))
RECURSIVE RPow(_, _)
RPow(r, n) == IF n = 0 THEN One(17) ELSE MulMod(RPow(r, n - 1), r, P1305, 17)
TagIsPolynomial == Now("core") =>
  LET k == Made(32, xx + yy) m == Made((16 * yy) + (xx % 16), xx + 1) bs == PolyBlocks(m) n == Len(bs)
      r == BAnd(SubSeq(k, 1, 16), ClampMask, 16)
      sum == FoldLeftDomain(LAMBDA s, i : AddMod(s, MulMod(bs[i], RPow(r, n + 1 - i), P1305, 17), P1305, 17), Zero(17), bs)
  IN  Poly1305(k, m) = Add(Fit(sum, 16), SubSeq(k, 17, 32), 16)
=============================================================================
