----------------------------- MODULE Trace_Hash -----------------------------
(* Recorded hash, HMAC and HKDF calls. *)
EXTENDS TraceRun, HMAC, Blake2b, Keccak
Init0(e) == <<>>
Out(s, e) ==
  CASE e.op = "sha256"  -> Ret(SHA256(e.m))
    [] e.op = "hmac"    -> Ret(HMAC(e.k, e.m))
    [] e.op = "extract" -> Ret(HkdfExtract(e.salt, e.ikm))
    [] e.op = "expand"  -> IF e.len <= HkdfMax THEN Ret(HkdfExpand(e.prk, e.info, e.len)) ELSE Unspecified
    [] e.op = "blake2b" -> Ret(BLAKE2b(e.m))
    [] e.op = "sha3"    -> Ret(SHA3(e.m, e.bits))
    [] e.op = "shake"   -> Ret(SHAKE(e.m, e.bits, e.n))
=============================================================================
