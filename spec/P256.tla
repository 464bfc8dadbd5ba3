-------------------------------- MODULE P256 --------------------------------
(* NIST P-256 (SEC 2 / FIPS 186-4): the affine group law of module           *)
(* Weierstrass, deliberately not the Jacobian formulas of the code.          *)
EXTENDS ByteNum
\* 2^256 - 2^224 + 2^192 + 2^96 - 1
Prime256 == Fit(Sub(Add(Add(Sub(Pow2B(256, 33), Pow2B(224, 33), 33), Pow2B(192, 33), 33), Pow2B(96, 33), 33), One(33), 33), 32)
HexDigit(c) == CHOOSE i \in 0..15 : SubSeq("0123456789abcdef", i+1, i+1) = c
FromHex(s) == Rev(Force([i \in 1..(Len(s) \div 2) |-> 16 * HexDigit(SubSeq(s, 2*i-1, 2*i-1)) + HexDigit(SubSeq(s, 2*i, 2*i))]))
Gx == FromHex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296")
Gy == FromHex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
OrderN == FromHex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
CurveB == FromHex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")
PA(a, b) == AddMod(a, b, Prime256, 32)
PS(a, b) == SubMod(a, b, Prime256, 32)
PM(a, b) == MulMod(a, b, Prime256, 32)
PInv(a) == PowMod(a, Sub(Prime256, <<2>>, 32), Prime256, 32)
Group == INSTANCE Weierstrass WITH Fadd <- PA, Fsub <- PS, Fmul <- PM, Finv <- PInv, F0 <- Zero(32), F1 <- One(32), F3 <- N2B(3, 32), CurveB <- CurveB
Inf == Group!Inf                                 \* point at infinity; other points <<x, y>>
OnCurve(p) == Group!OnCurve(p)
PMulP(k, p) == Group!Times(Force([j \in 1..(8 * Len(k)) |-> Bit(k, 8 * Len(k) - j)]), p)
BaseG == <<Gx, Gy>>
=============================================================================
