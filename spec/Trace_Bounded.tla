---------------------------- MODULE Trace_Bounded ----------------------------
(* Recorded calls on bounded integers (C08). *)
EXTENDS Bounded, TraceRun

Init0(e) == <<>>
Chk(e, z) == IF InRange(z, e.bits, e.sg) THEN Ret(z) ELSE Panics
Truth(b) == IF b THEN 1 ELSE 0
Rels(c) == << Truth(c = 0), Truth(c # 0), Truth(c < 0), Truth(c <= 0), Truth(c > 0), Truth(c >= 0), c >>
Out(s, e) ==
  CASE e.op = "add" -> Chk(e, ZAdd(e.a, e.b))
    [] e.op = "sub" -> Chk(e, ZSub(e.a, e.b))
    [] e.op = "mul" -> Chk(e, ZMul(e.a, e.b))
    [] e.op = "div" -> IF ZIsZero(e.b) THEN Panics ELSE Chk(e, ZQuo(e.a, e.b))
    [] e.op = "rem" -> IF ZIsZero(e.b) THEN Panics ELSE Chk(e, ZRem(e.a, e.b))
    [] e.op = "cmp" -> Ret(Rels(ZCmp(e.a, e.b)))
    \* construction from any integer, and back
    [] e.op = "make" -> Chk(e, e.a)
    [] e.op = "natural" -> IF InRange(e.a, e.bits, e.sg) /\ e.a[1] = 0 THEN Ret(e.a) ELSE Panics
    [] e.op = "pow2" -> Chk(e, ZPow2(e.k))
    [] e.op = "bit" -> IF e.k >= 8 * CeilDiv(e.bits, 8) THEN Panics
                       ELSE IF e.a[1] = 1 THEN Unspecified ELSE Ret(Bit(e.a[2], e.k))
    [] e.op = "text" -> Ret(DecText(e.a))
    [] e.op = "hex" -> IF e.neg = 2 \/ Len(e.h) % 2 = 1 THEN Panics   \* neither + nor -
                       ELSE IF ~WellFormed(e.h) THEN Unspecified
                       ELSE Chk(e, Z(e.neg, Rev(HexBytes(e.h))))
    [] e.op = "le" -> Chk(e, Z(0, e.b))
    [] e.op = "to_le" -> Require(e.p = 0 /\ Z(0, e.r) = e.a, e.a)
    [] e.op = "default" -> Ret(Z(0, <<>>))
    \* residues: exponentiation and inversion modulo m > 0
    [] e.op = "powmod" -> Chk(e, Z(0, PowMod(ZModN(e.a, e.m)[2], e.x, e.m[2], Len(e.m[2]))))
    [] e.op = "invmod" -> \* e.m prime, a not a multiple of it
         Require(e.p = 0 /\ e.r[1] = 0 /\ ZCmp(e.r, e.m) < 0 /\ ZModN(ZMul(e.r, e.a), e.m) = Z(0, <<1>>), <<>>)
    \* operators that the library leaves out panic, or else are exact
    [] e.op = "shl" -> LET z == ZMul(e.a, ZPow2(e.k)) IN IF InRange(z, e.bits, e.sg) THEN RetOrPanic(z) ELSE Panics
    [] e.op = "row" -> Ret(Force([i \in 1..Len(e.bs) |-> SmallOp(e.g, e.a, e.bs[i], e.bits, e.sg)]))
=============================================================================
