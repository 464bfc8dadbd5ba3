----------------------------- MODULE Trace_Curve -----------------------------
(* Recorded X25519 and P-256 calls. *)
EXTENDS TraceRun, X25519, P256
Init0(e) == <<>>
Out(s, e) ==
  CASE e.op = "x25519" -> Ret(X25519(e.k, e.u))
    [] e.op = "x25519base" -> Ret(X25519(e.k, Base9))
    [] e.op = "p256" -> IF IsZero(Mod(e.k, OrderN, 32)) THEN Unspecified ELSE Ret(PMulP(e.k, BaseG))
=============================================================================
