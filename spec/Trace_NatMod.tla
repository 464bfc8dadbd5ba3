---------------------------- MODULE Trace_NatMod ----------------------------
(* Recorded calls on modular naturals (C09).  e.n is the modulus, e.bits the *)
(* size of the canvas, elements are their representatives.                   *)
EXTENDS NatMod, TraceRun

Init0(e) == <<>>
Truth(b) == IF b THEN 1 ELSE 0
Rels(c) == << Truth(c = 0), Truth(c # 0), Truth(c < 0), Truth(c <= 0), Truth(c > 0), Truth(c >= 0), c >>
\* a natural x inside the modulus is taken as it is, any other reduced or refused
Make(x, n) == IF Lt(x, n) THEN Ret(Strip(x)) ELSE RetOrPanic(Red(x, n))
MakeZ(z, n) == IF z[1] = 0 THEN Make(z[2], n) ELSE RetOrPanic(ZModN(z, Z(0, n))[2])
Out(s, e) ==
  CASE e.op = "add" -> Ret(NAdd(e.a, e.b, e.n))
    [] e.op = "sub" -> Ret(NSub(e.a, e.b, e.n))
    [] e.op = "mul" -> Ret(NMul(e.a, e.b, e.n))
    [] e.op = "div" -> IF IsZero(e.b) THEN Panics ELSE Ret(Red(Div(e.a, e.b, Len(e.a)), e.n))
    [] e.op = "rem" -> IF IsZero(e.b) THEN Panics ELSE Ret(Red(Mod(e.a, e.b, Len(e.b)), e.n))
    [] e.op = "pow" -> Ret(NPow(e.a, e.x, e.n))
    [] e.op = "inv" -> \* e.n prime
         IF IsZero(e.a) THEN Unspecified ELSE Require(e.p = 0 /\ IsInverse(e.r, e.a, e.n), <<>>)
    [] e.op = "cmp" -> Ret(Rels(Cmp(e.a, e.b)))
    [] e.op = "make" -> MakeZ(e.a, e.n)
    [] e.op = "hex" -> IF Len(e.h) % 2 = 1 THEN Panics
                       ELSE IF ~WellFormed(e.h) THEN Unspecified ELSE Make(Rev(HexBytes(e.h)), e.n)
    [] e.op = "le" -> Make(e.b, e.n)
    [] e.op = "to_le" -> Require(e.p = 0 /\ Strip(e.r) = e.a, e.a)
    [] e.op = "bit" -> IF e.k >= 8 * CeilDiv(e.bits, 8) THEN Panics ELSE Ret(Bit(e.a, e.k))
    [] e.op = "text" -> Ret(DecText(Z(0, e.a)))
    [] e.op = "max" -> Ret(Strip(e.n))
    [] e.op = "default" -> Ret(<<>>)
    [] e.op = "row" -> Ret(Force([i \in 1..Len(e.bs) |-> SmallMod(e.g, e.a, e.bs[i], e.m)]))
    [] e.op = "invrow" -> \* prime modulus: inverse of every element but 0
         LET k == Len(e.r) IN
         Require(e.p = 0 /\ k = e.m - 1 /\ \A i \in 1..k : e.r[i] \in 0..(e.m - 1) /\ (e.r[i] * i) % e.m = 1 % e.m, <<>>)
    [] e.op = "chain" -> \* a history of operations on one element: <<op, operand>> ...
         LET step(x, o) == CASE o[1] = "add" -> NAdd(x, o[2], e.n) [] o[1] = "sub" -> NSub(x, o[2], e.n)
                             [] o[1] = "rsub" -> NSub(o[2], x, e.n) [] o[1] = "mul" -> NMul(x, o[2], e.n)
                             [] o[1] = "sq" -> NMul(x, x, e.n)
         IN Ret(Tail(FoldLeft(LAMBDA acc, o : Append(acc, step(acc[Len(acc)], o)), <<e.a>>, e.ops)))
=============================================================================
