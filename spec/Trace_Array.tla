----------------------------- MODULE Trace_Array -----------------------------
(* Calls on byte containers and word containers (C07).  cap is the fixed     *)
(* length of an array type, or -1 for a sequence.                            *)
EXTENDS ByteArray, TraceRun

Init0(e) == <<>>
Truth(b) == IF b THEN 1 ELSE 0
Out(s, e) ==
  CASE e.op = "words"    -> IF Len(e.a) % e.k = 0 THEN Ret(Words(e.a, e.k, e.big)) ELSE Panics
    [] e.op = "bytes"    -> Ret(WordBytes(e.a, e.big))
    [] e.op = "to_hex"   -> Ret(HexText(e.a))
    [] e.op = "from_hex" -> IF Len(e.a) % 2 = 1 THEN Panics
                            ELSE IF ~WellFormed(e.a) THEN Unspecified
                            ELSE IF e.cap >= 0 /\ Len(e.a) # 2 * e.cap THEN Panics
                            ELSE Ret(HexBytes(e.a))
    [] e.op = "elts"     -> IF Len(e.a) # Len(e.b) THEN Panics
                            ELSE IF e.g = "div" /\ \E i \in DOMAIN e.b : IsZero(e.b[i]) THEN Panics
                            ELSE Ret(Elts(e.g, e.a, e.b, e.sg))
    [] e.op = "eltsmod"  -> IF Len(e.a) # Len(e.b) THEN Panics
                            ELSE LET v == EltsMod(e.g, e.a, e.b, e.n)
                                     small == \A i \in DOMAIN e.a : CASE e.g = "add" -> Fits(WAdd(e.a[i], e.b[i], 0), Len(e.n), 0)
                                                                      [] e.g = "sub" -> Leq(e.b[i], e.a[i]) \/ Fits(WAdd(e.a[i], e.n, 0), Len(e.n), 0)
                                                                      [] e.g = "mul" -> Fits(WMul(e.a[i], e.b[i], 0), Len(e.n), 0)
                                 IN  IF small THEN Ret(v) ELSE RetOrPanic(v)
    [] e.op = "equal"    -> Ret(Truth(e.a = e.b))
    [] e.op = "order"    -> Ret(LexCmp(e.a, e.b))
=============================================================================
