------------------------------- MODULE ChaCha -------------------------------
(* RFC 8439: ChaCha20, Poly1305 and the AEAD.                                *)
EXTENDS ByteNum
CA(a, b) == Add(a, b, 4)
CX(a, b, k) == Rotl(BXor(a, b, 4), k, 4)
QR(s, a, b, c, d) ==                             \* 1-based positions
  LET a1 == CA(s[a], s[b])   d1 == CX(s[d], a1, 16)
      c1 == CA(s[c], d1)     b1 == CX(s[b], c1, 12)
      a2 == CA(a1, b1)       d2 == CX(d1, a2, 8)
      c2 == CA(c1, d2)       b2 == CX(b1, c2, 7)
  IN  [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
QRIdx == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
            <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
DoubleRound(s) == FoldLeft(LAMBDA u, q : QR(u, q[1], q[2], q[3], q[4]), s, QRIdx)
CConst == << <<101,120,112,97>>, <<110,100,32,51>>, <<50,45,98,121>>, <<116,101,32,107>> >>  \* "expand 32-byte k"
CInit(key, ctr, nonce) == CConst \o Blocks(key, 4) \o <<ctr>> \o Blocks(nonce, 4)
CInner(s) == FoldLeft(LAMBDA u, i : DoubleRound(u), s, Rep(0, 10))
CBlockState(s) == LET f == CInner(s) IN Force([i \in 1..16 |-> CA(f[i], s[i])])
CBlock(key, ctr, nonce) == Concat(CBlockState(CInit(key, ctr, nonce)))
CStream(key, ctr, nonce, n) == Concat(Force([i \in 1..n |-> CBlock(key, Add(ctr, N2B(i - 1, 4), 4), nonce)]))
ChaCha20(key, ctr, nonce, msg) == XorBytes(msg, SubSeq(CStream(key, ctr, nonce, CeilDiv(Len(msg), 64)), 1, Len(msg)))

P1305 == Sub(Pow2B(130, 17), <<5>>, 17)          \* 2^130 - 5
ClampMask == <<255,255,255,15, 252,255,255,15, 252,255,255,15, 252,255,255,15>>
PolyBlocks(m) == Force([i \in 1..CeilDiv(Len(m), 16) |-> Block(m, 16, i - 1) \o <<1>>])
Poly1305(key, m) ==
  LET r == BAnd(SubSeq(key, 1, 16), ClampMask, 16)
      a == FoldLeft(LAMBDA acc, b : MulMod(FullAdd(acc, b), r, P1305, 17), Zero(17), PolyBlocks(m))
  IN  Add(a, SubSeq(key, 17, 32), 16)
Pad16(m) == m \o Rep(0, (16 - (Len(m) % 16)) % 16)
AeadMacData(aad, ct) == Pad16(aad) \o Pad16(ct) \o N2B(Len(aad), 8) \o N2B(Len(ct), 8)
OneTimeKey(key, nonce) == SubSeq(CBlock(key, Zero(4), nonce), 1, 32)
CPTag(key, nonce, aad, ct) == Poly1305(OneTimeKey(key, nonce), AeadMacData(aad, ct))
CPEncrypt(key, nonce, aad, msg) ==
  LET ct == ChaCha20(key, One(4), nonce, msg) IN << ct, CPTag(key, nonce, aad, ct) >>
CPDecrypt(key, nonce, aad, ct, tag) ==
  IF tag = CPTag(key, nonce, aad, ct) THEN <<1, ChaCha20(key, One(4), nonce, ct)>> ELSE <<0, <<>>>>
=============================================================================
