----------------------------- MODULE Trace_Poly -----------------------------
(* Recorded calls of the polynomial functions and types (C10).  e.w, e.sg:   *)
(* size in bytes and signedness of the coefficient type; e.n: modulus, 0 for *)
(* polynomials over the integers.                                            *)
EXTENDS Poly, TraceRun

Init0(e) == <<>>
Truth(b) == IF b THEN 1 ELSE 0
AbsMax(p) == FoldLeft(LAMBDA m, c : Max2(m, Abs(c)), 0, p)
TypeMax(w, sg) == IF w >= 4 THEN 2^30 ELSE IF w = 2 THEN 65535 \div (1 + sg) ELSE 255 \div (1 + sg)
\* every coefficient an element of the type
Holds(p, e) == (e.w >= 4 /\ e.sg = 1) \/ (\A i \in DOMAIN p : p[i] <= TypeMax(e.w, e.sg) /\ (e.sg = 1 \/ p[i] >= 0))
\* no product of two coefficients, plus a third one, leaves the type; signed types compute on 128 bits
Roomy(e) == LET m == Max2(AbsMax(e.a), Max2(AbsMax(e.b), e.n)) IN e.sg = 1 \/ m * m + m <= TypeMax(e.w, e.sg)
\* coefficient-wise result: over Z exact or refused, over Z/n total where nothing overflows
Coeffs(v, e) == IF e.n = 0 THEN (IF Holds(v, e) THEN (IF Roomy(e) THEN Ret(v) ELSE RetOrPanic(v)) ELSE Panics)
                ELSE IF Roomy(e) THEN Ret(v) ELSE RetOrPanic(v)
MayDivide(e) == e.n # 0 /\ ~IsZeroPoly(e.b) /\ UnitN(e.b[Top(e.b)], e.n) /\ Roomy(e)
DivOut(e, quo, rem) ==
  IF e.p = 1 THEN Require(~MayDivide(e), <<"must divide">>)
  ELSE Require(e.p = 0 /\ DivisionLaw(e.a, e.b, quo, rem, e.n), <<"division law">>)
\* a reduced operand shorter than the modulus polynomial, over a prime field: the inverse is returned exactly when there is one
MustInvert(e) == Roomy(e) /\ e.prime = 1 /\ Degree(e.b) >= Max2(1, Len(e.a)) /\ ReducedIn(e.a \o e.b, e.n) /\ Coprime(e.a, e.b, e.n)
InvOut(e) ==
  IF e.p = 1 \/ (e.p = 0 /\ e.r[1] = 0) THEN Require(~MustInvert(e), <<"must invert">>)
  ELSE Require(e.p = 0 /\ InverseLaw(e.r[2], e.a, e.b, e.n), <<"inverse law">>)
ZHolds(z, w, sg) == IF z[1] = 0 THEN InRange(z, 8 * w - sg, 1) ELSE sg = 1 /\ InRange(ZAdd(z, Z(0, <<1>>)), 8 * w - 1, 1)
ZCoeffs(v, e) == IF \A i \in DOMAIN v : ZHolds(v[i], e.w, e.sg) THEN (IF e.small = 1 THEN Ret(v) ELSE RetOrPanic(v)) ELSE Panics
ZDivOut(e, quo, rem) ==
  IF e.p = 1 THEN Require(e.must = 0, <<"must divide">>)
  ELSE Require(e.p = 0 /\ ZDivisionLaw(e.a, e.b, quo, rem, e.n), <<"division law">>)

Out(s, e) ==
  CASE e.op = "leading" -> Ret(<< Max2(Degree(e.a), 0), Co(e.a, Top(e.a)) >>)
    [] e.op = "add" -> Coeffs(PolyAdd(e.a, e.b, e.n), e)
    [] e.op = "sub" -> IF e.n # 0 /\ e.sg = 0 /\ ~ReducedIn(e.a \o e.b, e.n) THEN Unspecified ELSE Coeffs(PolySub(e.a, e.b, e.n), e)
    [] e.op = "mul" -> Coeffs(PolyMul(e.a, e.b, e.n), e)
    [] e.op = "div" -> DivOut(e, e.r[1], e.r[2])
    [] e.op = "inv" -> InvOut(e)
    \* fixed-length polynomials of e.l coefficients modulo e.irr
    [] e.op = "from_vec" -> IF Top(e.a) > e.l THEN Panics ELSE Ret(Resize(e.a, e.l))
    [] e.op = "new" -> IF \E i \in DOMAIN e.ts : e.ts[i][1] >= e.l THEN Panics
                       ELSE Ret(FoldLeft(LAMBDA p, t : [p EXCEPT ![t[1] + 1] = t[2]], Resize(<<>>, e.l), e.ts))
    [] e.op = "eq" -> Ret(Truth(e.a = e.b))
    [] e.op = "ringmul" ->
         IF IsZeroPoly(e.irr) \/ ~UnitN(e.irr[Top(e.irr)], e.n) THEN Require(e.p = 1 \/ IsZeroPoly(PolyMul(e.a, e.b, e.n)), <<"must refuse">>)
         ELSE LET v == Resize(PolyRem(PolyMul(e.a, e.b, e.n), e.irr, e.n), e.l) IN IF Roomy(e) THEN Ret(v) ELSE RetOrPanic(v)
    [] e.op = "random" -> Require(e.p = 0 /\ Len(e.r) = e.l /\ ReducedIn(e.r, e.n), <<>>)
    \* large coefficients
    [] e.op = "zadd" -> ZCoeffs(ZPolyAdd(e.a, e.b, e.n), e)
    [] e.op = "zsub" -> ZCoeffs(ZPolySub(e.a, e.b, e.n), e)
    [] e.op = "zmul" -> ZCoeffs(ZPolyMul(e.a, e.b, e.n), e)
    [] e.op = "zdiv" -> ZDivOut(e, e.r[1], e.r[2])
=============================================================================
