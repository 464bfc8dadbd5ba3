------------------------------ MODULE Trace_Int ------------------------------
(* Calls on machine integers (C01-C04).  Fields of an event: w width in      *)
(* bytes, sg signed, sc secret, f the form of the call (method, operator,    *)
(* compound assignment, generic trait), a b c operands, k n small integers.  *)
EXTENDS MachineInt, TraceRun

Init0(e) == <<>>
B(p) == IF p THEN 1 ELSE 0
Holds(op, a, b, sg) ==
  LET c == ICmp(a, b, sg) IN
  CASE op = "eq" -> c = 0 [] op = "ne" -> c # 0 [] op = "gt" -> c > 0
    [] op = "ge" -> c >= 0 [] op = "lt" -> c < 0 [] op = "le" -> c <= 0

\* one exhaustive row of an 8-bit operation: first operand fixed, second 0..255
Row(e) ==
  LET want == Force([j \in 1..256 |-> Tab(e.g, e.sg, e.a, j - 1)]) IN
  CASE e.g = "divmod" -> Require(e.p = 0 /\ \A j \in 2..256 : e.r[j] = want[j], want)
    [] OTHER -> Ret(want)
\* modular rows over 8-bit operands: residues, or a panic where the intermediate does not fit
ModRow(e) ==
  LET n == e.n  x == S8(e.a, e.sg)
      Judge(j) ==
        LET y == S8(j - 1, e.sg)
            m == S8(n, e.sg)
            red == e.sg = 1 \/ (x < m /\ y < m)
            exact == CASE e.g = "add_mod" -> x + y [] e.g = "sub_mod" -> x - y [] e.g = "mul_mod" -> x * y
            fits == IF e.sg = 1 THEN TRUE
                    ELSE CASE e.g = "add_mod" -> x + y <= 255
                           [] e.g = "sub_mod" -> x >= y \/ x + m <= 255
                           [] e.g = "mul_mod" -> x * y <= 255
        IN  e.r[j] = exact % m \/ ((~fits \/ ~red) /\ e.r[j] = PANIC)
  IN  Require(e.p = 0 /\ \A j \in 1..256 : Judge(j), e.n)
InvRow(e) ==                                    \* x = 0..255 inverted modulo n
  LET m == S8(e.n, e.sg)
      Judge(j) ==
        LET x == S8(j - 1, e.sg)
            r == e.r[j]
        IN  \/ x = 0
            \/ IF GcdN(m, x % m) = 1
               THEN r \in 0..(m - 1) /\ (((x % m) * r) - 1) % m = 0
               ELSE r = PANIC
  IN  Require(e.p = 0 /\ \A j \in 1..256 : Judge(j), e.n)

ModOut(e) ==
  LET w == e.w
      x == CASE e.op = "add_mod" -> WAdd(e.a, e.b, e.sg)
             [] e.op = "sub_mod" -> WSub(e.a, e.b, e.sg)
             [] e.op = "mul_mod" -> WMul(e.a, e.b, e.sg)
             [] e.op = "modulo"  -> Ext(e.a, e.sg, WideW(e.a))
      v == Residue(x, e.n)
      cw == IF e.sg = 1 THEN 16 ELSE w          \* signed operations may compute in 128 bits
      fits == CASE e.op = "sub_mod" /\ e.sg = 0 -> ~IsNeg(x, 1) \/ Fits(WAdd(e.a, e.n, 0), w, 0)
                [] OTHER -> Len(x) <= cw \/ Fits(x, cw, e.sg)
  IN  IF e.sg = 0 /\ e.op # "modulo" /\ ~(Lt(e.a, e.n) /\ Lt(e.b, e.n)) THEN RetOrPanic(v)   \* operands that are not reduced may be refused
      ELSE IF fits THEN Ret(v) ELSE RetOrPanic(v)

InvOut(e) ==
  LET x == Residue(Ext(e.a, e.sg, WideW(e.a)), e.n)
      good == Lt(e.r, e.n) /\ Eq(MulMod(x, e.r, e.n, e.w), Mod(<<1>>, e.n, e.w))
  IN  IF IsZero(e.a) THEN Unspecified
      ELSE IF ~Invertible(x, e.n) THEN Panics
      ELSE Require(e.p = 0 /\ good, x)

Out(s, e) ==
  CASE e.op = "row" -> Row(e)
    [] e.op = "modrow" -> ModRow(e)
    [] e.op = "invrow" -> InvRow(e)
    \* --- C01 arithmetic
    [] e.op = "add" -> Ret(Add(e.a, e.b, e.w))
    [] e.op = "sub" -> Ret(Sub(e.a, e.b, e.w))
    [] e.op = "mul" -> Ret(Mul(e.a, e.b, e.w))
    [] e.op = "neg" -> Ret(Neg(e.a))
    [] e.op = "and" -> Ret(BAnd(e.a, e.b, e.w))
    [] e.op = "or"  -> Ret(BOr(e.a, e.b, e.w))
    [] e.op = "xor" -> Ret(BXor(e.a, e.b, e.w))
    [] e.op = "not" -> Ret(BNot(e.a, e.w))
    [] e.op = "shl" -> IF e.k < 8 * e.w THEN Ret(IShl(e.a, e.k)) ELSE Unspecified
    [] e.op = "shr" -> IF e.k < 8 * e.w THEN Ret(IShr(e.a, e.k, e.sg)) ELSE Unspecified
    [] e.op \in {"rotl", "rotr"} ->
         LET v == IF e.op = "rotl" THEN Rotl(e.a, e.k, e.w) ELSE Rotr(e.a, e.k, e.w)
         IN  IF e.f = "trait" /\ e.k >= 8 * e.w THEN RetOrPanic(v) ELSE Ret(v)
    [] e.op = "chk_add" -> LET x == WAdd(e.a, e.b, e.sg) IN IF Fits(x, e.w, e.sg) THEN Ret(Fit(x, e.w)) ELSE Panics
    [] e.op = "chk_sub" -> LET x == WSub(e.a, e.b, e.sg) IN
                           IF Fits(x, e.w, e.sg) /\ (e.sg = 1 \/ ~IsNeg(x, 1)) THEN Ret(Fit(x, e.w)) ELSE Panics
    [] e.op = "chk_mul" -> LET x == WMul(e.a, e.b, e.sg) IN IF Fits(x, e.w, e.sg) THEN Ret(Fit(x, e.w)) ELSE Panics
    [] e.op = "pow" -> IF e.sc = 1 \/ IPowFits(e.a, e.k, e.sg) THEN Ret(IPow(e.a, e.k)) ELSE RetOrPanic(IPow(e.a, e.k))
    [] e.op = "wrap_div" -> IF IsZero(e.b) THEN Panics
                            ELSE IF e.sc = 1 THEN RetOrPanic(IDiv(e.a, e.b, e.sg)) ELSE Ret(IDiv(e.a, e.b, e.sg))
    [] e.op = "div" -> IF IsZero(e.b) THEN Panics
                       ELSE IF IDivOverflows(e.a, e.b, e.sg) THEN RetOrPanic(IDiv(e.a, e.b, e.sg)) ELSE Ret(IDiv(e.a, e.b, e.sg))
    [] e.op = "get_bit" -> IF e.k < 8 * e.w THEN Ret(Fit(<<Bit(e.a, e.k)>>, e.w)) ELSE Unspecified
    [] e.op = "set_bit" -> IF e.k < 8 * e.w /\ e.n \in {0, 1} THEN Ret(SetBit(e.a, e.n, e.k)) ELSE Unspecified
    [] e.op = "set" -> IF e.k < 8 * e.w /\ e.n < 8 * e.w THEN Ret(SetBit(e.a, Bit(e.b, e.n), e.k)) ELSE Unspecified
    [] e.op = "get_byte" -> IF e.k < e.w THEN Ret(ByteOf(e.a, e.k)) ELSE Unspecified
    [] e.op = "literal" -> Ret(Fit(e.a, e.w))
    [] e.op = "consts" -> Ret(<< Zero(e.w), One(e.w), Fit(<<2>>, e.w), MaxVal(e.w, e.sg), Zero(e.w), N2B(8 * e.w, 4) >>)
    [] e.op = "sconsts" -> Ret(<< Zero(e.w), One(e.w), Rep(255, e.w), MaxVal(e.w, e.sg) >>)
    \* --- C02 comparison and selection
    [] e.op = "cmp" -> Ret(Mask(Holds(e.g, e.a, e.b, e.sg), e.w))
    [] e.op = "cmp_bool" -> Ret(B(Holds(e.g, e.a, e.b, e.sg)))
    [] e.op = "cmp_bm" ->
         LET h == Holds(e.g, e.a, e.b, e.sg) m == Mask(h, e.w) IN
         IF e.sc = 1 /\ e.sg = 1 THEN RetOrPanic(m)
         ELSE IF e.sg = 0 THEN Ret(m)
         ELSE Require(e.p = 0 /\ (IF h THEN e.r \in {m, MaxVal(e.w, 1)} ELSE e.r = m), m)
    [] e.op = "cswap" -> Ret(IF e.n = 1 THEN << e.b, e.a >> ELSE << e.a, e.b >>)
    [] e.op = "cset_bit" -> Ret(IF e.n = 1 THEN SetBit(e.a, e.m, e.k) ELSE e.a)
    [] e.op = "cadd" -> Ret(IF e.n = 1 THEN Add(e.a, e.b, e.w) ELSE e.a)
    [] e.op = "csub" -> Ret(IF e.n = 1 THEN Sub(e.a, e.b, e.w) ELSE e.a)
    [] e.op = "cmul" -> Ret(IF e.n = 1 THEN Mul(e.a, e.b, e.w) ELSE e.a)
    [] e.op = "ct_div" -> IF IsZero(e.b) THEN Unspecified ELSE Ret(<< Div(e.a, e.b, e.w), Mod(e.a, e.b, e.w) >>)
    \* --- C03 conversion
    [] e.op = "cast" -> Ret(Ext(e.a, e.sg, e.w))            \* sg: signedness of the source, w: target width
    [] e.op = "encode" -> Ret(Concat(Force([i \in DOMAIN e.a |-> IF e.k = 1 THEN Rev(e.a[i]) ELSE e.a[i]])))
    [] e.op = "decode" ->
         IF Len(e.a) % e.w # 0 THEN Panics
         ELSE Ret(Force([i \in 1..(Len(e.a) \div e.w) |-> LET b == Block(e.a, e.w, i - 1) IN IF e.k = 1 THEN Rev(b) ELSE b]))
    [] e.op = "decode1" ->                                  \* exactly one integer
         IF Len(e.a) # e.w THEN Panics ELSE Ret(IF e.k = 1 THEN Rev(e.a) ELSE e.a)
    \* --- C04 modular
    [] e.op \in {"add_mod", "sub_mod", "mul_mod", "modulo"} -> ModOut(e)
    [] e.op = "inv" -> InvOut(e)
=============================================================================
