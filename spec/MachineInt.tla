----------------------------- MODULE MachineInt -----------------------------
(* Fixed-width machine integers as bit patterns: a value of width w bytes is *)
(* the little-endian tuple of its w bytes; sg tells whether the pattern is   *)
(* read as two's complement.  Nothing here follows the code: each operator   *)
(* is the mathematical meaning of the operation.                             *)
EXTENDS ByteNum

Neg(a) == Sub(<<>>, a, Len(a))
IsNeg(a, sg) == sg = 1 /\ a[Len(a)] >= 128
\* the same number on w bytes (w >= Len(a)), or its low w bytes
Ext(a, sg, w) == IF w <= Len(a) THEN SubSeq(a, 1, w)
                 ELSE a \o Rep(IF IsNeg(a, sg) THEN 255 ELSE 0, w - Len(a))
Mag(a, sg) == IF IsNeg(a, sg) THEN Neg(a) ELSE a          \* |a| as an unsigned pattern
\* order of the represented numbers: -1, 0, 1
ICmp(a, b, sg) == IF IsNeg(a, sg) # IsNeg(b, sg) THEN (IF IsNeg(a, sg) THEN -1 ELSE 1) ELSE Cmp(a, b)
MaxVal(w, sg) == IF sg = 1 THEN Force([i \in 1..w |-> IF i = w THEN 127 ELSE 255]) ELSE Rep(255, w)
MinVal(w, sg) == IF sg = 1 THEN Force([i \in 1..w |-> IF i = w THEN 128 ELSE 0]) ELSE Zero(w)

\* shifts by k < 8w; right shift of a signed pattern copies the sign
IShl(a, k) == Shl(a, k, Len(a))
IShr(a, k, sg) == LET w == Len(a) IN
  IF IsNeg(a, sg) THEN BNot(Shr(BNot(a, w), k, w), w) ELSE Shr(a, k, w)

\* exact results, on enough bytes to hold them as signed numbers
WideW(a) == 2 * Len(a) + 1
WAdd(a, b, sg) == LET W == WideW(a) IN Add(Ext(a, sg, W), Ext(b, sg, W), W)
WSub(a, b, sg) == LET W == WideW(a) IN Sub(Ext(a, sg, W), Ext(b, sg, W), W)
WMul(a, b, sg) == LET W == WideW(a) IN Mul(Ext(a, sg, W), Ext(b, sg, W), W)
Fits(x, w, sg) == Ext(Fit(x, w), sg, Len(x)) = x          \* x signed and wide

\* truncated division of the represented numbers, as a pattern (b # 0)
IDiv(a, b, sg) == LET q == Div(Mag(a, sg), Mag(b, sg), Len(a)) IN
  IF IsNeg(a, sg) # IsNeg(b, sg) THEN Neg(q) ELSE q
IDivOverflows(a, b, sg) == sg = 1 /\ a = MinVal(Len(a), 1) /\ b = Rep(255, Len(b))

\* x^k, wrapped to w bytes: square and multiply over the bits of k
IPow(a, k) == LET w == Len(a) IN
  FoldLeftDomain(LAMBDA acc, i : LET s == Mul(acc, acc, w) IN IF (k \div 2^(31 - i)) % 2 = 1 THEN Mul(s, a, w) ELSE s, One(w), Rep(0, 31))
\* does x^k fit the type?  0, 1 and -1 always do; the others at least double
IPowFits(a, k, sg) ==
  LET w == Len(a)  W == w * Max2(k, 1) + 1
      unit == IsZero(a) \/ a = One(w) \/ (sg = 1 /\ a = Rep(255, w))
      x == FoldLeftDomain(LAMBDA acc, i : Mul(acc, Ext(a, sg, W), W), One(W), Rep(0, k))
  IN  unit \/ (k < 8 * w /\ Fits(x, w, sg))

SetBit(a, b, i) == LET w == Len(a) m == Pow2B(i, w) IN
  IF b = 1 THEN BOr(a, m, w) ELSE BAnd(a, BNot(m, w), w)
ByteOf(a, i) == Fit(<<a[i + 1]>>, Len(a))
Mask(p, w) == IF p THEN Rep(255, w) ELSE Zero(w)

\* residue in [0, n) of a signed wide number x, n > 0 a pattern of w bytes
Residue(x, n) ==
  LET w == Len(n)
      m == Mod(Mag(x, 1), n, w)
  IN  IF IsNeg(x, 1) /\ ~IsZero(m) THEN Sub(n, m, w) ELSE m
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF IsZero(b) THEN a ELSE Gcd(b, Mod(a, b, Len(b)))
Invertible(x, n) == Eq(Gcd(n, x), <<1>>)                  \* x reduced

----------------------------------------------------------------------------
(* 8-bit types on TLC's own integers, for exhaustive tables *)
S8(x, sg) == IF sg = 1 /\ x >= 128 THEN x - 256 ELSE x
P8(x) == x % 256
In8(x, sg) == IF sg = 1 THEN x \in -128..127 ELSE x \in 0..255
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Quo(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
PANIC == -1
Chk8(x, sg) == IF In8(x, sg) THEN P8(x) ELSE PANIC
M8(p) == IF p THEN 255 ELSE 0
\* table entry for operands a, b in 0..255 (bit patterns)
Tab(f, sg, a, b) ==
  LET x == S8(a, sg) y == S8(b, sg) IN
  CASE f = "add" -> P8(x + y)
    [] f = "sub" -> P8(x - y)
    [] f = "mul" -> P8(x * y)
    [] f = "and" -> a & b
    [] f = "or"  -> a | b
    [] f = "xor" -> a ^^ b
    [] f = "chk_add" -> Chk8(x + y, sg)
    [] f = "chk_sub" -> Chk8(x - y, sg)
    [] f = "chk_mul" -> Chk8(x * y, sg)
    [] f = "eq" -> M8(x = y)
    [] f = "ne" -> M8(x # y)
    [] f = "gt" -> M8(x > y)
    [] f = "ge" -> M8(x >= y)
    [] f = "lt" -> M8(x < y)
    [] f = "le" -> M8(x <= y)
    [] f = "divmod" -> IF b = 0 THEN 0 ELSE (a \div b) * 256 + (a % b)   \* unsigned, entry 0 is not judged
    [] f = "div" -> IF y = 0 THEN PANIC ELSE Chk8(Quo(x, y), sg)
    [] f = "wdiv" -> IF y = 0 THEN PANIC ELSE P8(Quo(x, y))
=============================================================================
