------------------------------- MODULE X25519 -------------------------------
(* RFC 7748 section 5: X25519, over GF(2^255 - 19).  The ladder itself is     *)
(* module Ladder; MC_Ladder relates it to the group law on small curves.      *)
EXTENDS ByteNum
P25519 == Sub(Pow2B(255, 32), <<19>>, 32)
FA(a, b) == AddMod(a, b, P25519, 32)
FS(a, b) == SubMod(a, b, P25519, 32)
FM(a, b) == MulMod(a, b, P25519, 32)
FInv(a) == PowMod(a, Sub(P25519, <<2>>, 32), P25519, 32)
Mont == INSTANCE Ladder WITH Fadd <- FA, Fsub <- FS, Fmul <- FM, F0 <- Zero(32), F1 <- One(32), A24 <- N2B(121665, 32)
ClampK(k) == [k EXCEPT ![1] = k[1] - (k[1] % 8), ![32] = (k[32] % 64) + 64]
DecodeU(u) == Mod([u EXCEPT ![32] = u[32] % 128], P25519, 32)
X25519(k, u) ==
  LET kk == ClampK(k)
      r  == Mont!Multiply(Force([j \in 1..255 |-> Bit(kk, 255 - j)]), DecodeU(u))
  IN  FM(r[1], FInv(r[2]))
Base9 == N2B(9, 32)
=============================================================================
