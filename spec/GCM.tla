--------------------------------- MODULE GCM ---------------------------------
(* NIST SP 800-38D: GHASH and GCM with 96-bit nonces.                        *)
EXTENDS AES
\* Block X as a 128-bit number with X's first (leftmost) bit as the most
\* significant: bit i of the block (section 6.3) is bit 127-i of the number.
ToN(b) == Rev(b)
FromN(n) == Rev(n)
RPoly == Force([i \in 1..16 |-> IF i = 16 THEN 225 ELSE 0])     \* 11100001 || 0^120
GMulN(x, y) ==                                   \* algorithm 1 of section 6.3
  FoldLeft(LAMBDA s, i :
             [z |-> IF Bit(x, 127 - i) = 1 THEN BXor(s.z, s.v, 16) ELSE s.z,
              v |-> LET h == Shr(s.v, 1, 16) IN IF Bit(s.v, 0) = 1 THEN BXor(h, RPoly, 16) ELSE h],
           [z |-> Zero(16), v |-> y], Force([i \in 1..128 |-> i - 1])).z
PadBlocks(m) == Force([i \in 1..CeilDiv(Len(m), 16) |-> EndsUp(Block(m, 16, i - 1), 16)])
GHashBlocks(h, bs) ==
  LET hn == ToN(h)
  IN  FromN(FoldLeft(LAMBDA y, b : GMulN(BXor(y, ToN(b), 16), hn), Zero(16), bs))
\* the library's stand-alone MAC: GHASH of the zero-padded message
GMac(m, h) == GHashBlocks(h, PadBlocks(m))
Len64(n) == Rev(Shl(N2B(n, 8), 3, 8))            \* bit length, big endian
GCMTag(w, nonce, aad, ct) ==
  LET h  == AESEncW(w, Rep(0, 16))
      ek == AESEncW(w, nonce \o <<0, 0, 0, 1>>)
      s  == GHashBlocks(h, PadBlocks(aad) \o PadBlocks(ct) \o << Len64(Len(aad)) \o Len64(Len(ct)) >>)
  IN  XorBytes(s, ek)
GCMEncrypt(key, nonce, aad, msg) ==              \* <<ciphertext, tag>>
  LET w  == KeyExpansion(key)
      ct == XorBytes(msg, SubSeq(CtrStream(w, nonce, N2B(2, 4), CeilDiv(Len(msg), 16)), 1, Len(msg)))
  IN  << ct, GCMTag(w, nonce, aad, ct) >>
\* <<1, plaintext>> if the tag is the right one, else <<0, <<>>>>
GCMDecrypt(key, nonce, aad, ct, tag) ==
  LET w == KeyExpansion(key)
  IN  IF tag = GCMTag(w, nonce, aad, ct)
      THEN <<1, XorBytes(ct, SubSeq(CtrStream(w, nonce, N2B(2, 4), CeilDiv(Len(ct), 16)), 1, Len(ct)))>>
      ELSE <<0, <<>>>>
=============================================================================
