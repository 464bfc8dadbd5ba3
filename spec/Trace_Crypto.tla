---------------------------- MODULE Trace_Crypto ----------------------------
(* Recorded AES, GCM, ChaCha20, Poly1305 and AEAD calls. *)
EXTENDS TraceRun, GCM, ChaCha
\* delivery on the channel of module Channel: e.x is the verdict of the ideal
Open(e, d) == Require(e.p = 0 /\ e.r = d /\ d[1] = e.x, d)
Init0(e) == <<>>
Out(s, e) ==
  CASE e.op = "aes"      -> Ret(AESBlock(e.k, e.b))
    [] e.op = "aesctr"   -> Ret(AESCtr(e.k, e.n, e.c, e.m))
    [] e.op = "gmac"     -> Ret(GMac(e.m, e.h))
    [] e.op = "gcmenc"   -> Ret(GCMEncrypt(e.k, e.n, e.a, e.m))
    [] e.op = "gcmdec"   -> Ret(GCMDecrypt(e.k, e.n, e.a, e.c, e.t))
    [] e.op = "qr"       -> Ret(QR(e.s, e.i[1] + 1, e.i[2] + 1, e.i[3] + 1, e.i[4] + 1))
    [] e.op = "chinit"   -> Ret(CInit(e.k, e.c, e.n))
    [] e.op = "chinner"  -> Ret(CBlockState(CInit(e.k, e.c, e.n)))
    [] e.op = "chser"    -> Ret(Concat(e.s))
    [] e.op = "polymac"  -> Ret(Poly1305(OneTimeKey(e.k, e.n), e.m))
    [] e.op = "chblock"  -> Ret(CBlock(e.k, e.c, e.n))
    [] e.op = "chacha"   -> Ret(ChaCha20(e.k, e.c, e.n, e.m))
    [] e.op = "poly"     -> Ret(Poly1305(e.k, e.m))
    [] e.op = "cpenc"    -> Ret(CPEncrypt(e.k, e.n, e.a, e.m))
    [] e.op = "gcmopen"  -> Open(e, GCMDecrypt(e.k, e.n, e.a, e.c, e.t))
    [] e.op = "cpopen"   -> Open(e, CPDecrypt(e.k, e.n, e.a, e.c, e.t))
    [] e.op = "cpdec"    -> Ret(CPDecrypt(e.k, e.n, e.a, e.c, e.t))
=============================================================================
