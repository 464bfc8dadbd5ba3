-------------------------------- MODULE HMAC --------------------------------
(* RFC 2104 HMAC and RFC 5869 HKDF over SHA-256. *)
EXTENDS SHA2
HBlock == 64
HLen == 32
HmacKey(k) == EndsUp(IF Len(k) > HBlock THEN SHA256(k) ELSE k, HBlock)
HMAC(k, m) ==
  LET k0 == HmacKey(k)
      inner == SHA256(XorBytes(k0, Rep(54, HBlock)) \o m)        \* ipad = 0x36
  IN  SHA256(XorBytes(k0, Rep(92, HBlock)) \o inner)             \* opad = 0x5c

HkdfExtract(salt, ikm) == HMAC(IF salt = <<>> THEN Rep(0, HLen) ELSE salt, ikm)
\* T(0) = <<>>, T(i) = HMAC(prk, T(i-1) | info | i), output is a prefix of T(1) | T(2) | ...
HkdfT(prk, info, n) ==
  FoldLeft(LAMBDA s, i : LET t == HMAC(prk, s.t \o info \o <<i>>) IN [t |-> t, o |-> s.o \o t],
           [t |-> <<>>, o |-> <<>>], Force([i \in 1..n |-> i])).o
HkdfExpand(prk, info, len) == SubSeq(HkdfT(prk, info, CeilDiv(len, HLen)), 1, len)
HkdfMax == 255 * HLen
=============================================================================
