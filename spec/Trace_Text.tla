----------------------------- MODULE Trace_Text -----------------------------
(* Printed machine integers and arrays (C25). *)
EXTENDS Text, TraceRun
Init0(e) == <<>>
Out(s, e) ==
  CASE e.op = "print" -> Ret(Decimal(e.a, e.sg))
    [] e.op = "hex"   -> Ret(HexForm(e.a, e.alt, e.n))
    [] e.op = "pad"   -> Ret(HexPadded(e.a, e.alt, e.n, e.side, e.fill))
    \* on several lines: read back, the list is the same
    [] e.op = "pretty" -> Require(e.p = 0 /\ Len(e.r) >= 2 /\ e.r[1] = 91 /\ e.r[Len(e.r)] = 93 /\ Split(e.r) = Force([i \in DOMAIN e.a |-> Decimal(e.a[i], e.sg)]), ListText(Force([i \in DOMAIN e.a |-> Decimal(e.a[i], e.sg)])))
    [] e.op = "list"  -> Ret(ListText(Force([i \in DOMAIN e.a |-> Decimal(e.a[i], e.sg)])))
=============================================================================
