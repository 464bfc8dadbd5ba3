--------------------------- MODULE MC_Branchless ---------------------------
(* The branch-free algorithms, over words of Bits bits, all operands: masks   *)
(* from carries and sign bits decide comparisons, masked selections select,   *)
(* and restoring division keeps  (top bits of a) = q * d + r,  r < d.         *)
EXTENDS Integers, Bitwise, TLC
CONSTANTS Bits
M == 2 ^ Bits
VARIABLES kind, x, y, i, q, r
vars == <<kind, x, y, i, q, r>>
Word == 0..(M - 1)
Compl(a) == M - 1 - a
Wr(a) == a % M
Top(a) == a \div (M \div 2)                        \* a >> (Bits - 1)
Mask(b) == IF b THEN M - 1 ELSE 0

CompEq(a, b)  == LET z == a ^^ b IN Wr(Top(z | Wr(-z)) - 1)
CompGte(a, b) == LET s == (a ^^ b) | (Wr(a - b) ^^ b) IN Wr(Top(a ^^ s) - 1)
CompNe(a, b)  == Compl(CompEq(a, b))
CompGt(a, b)  == CompGte(a, b) ^^ CompEq(a, b)
CompLte(a, b) == Compl(CompGt(a, b))
CompLt(a, b)  == Compl(CompGte(a, b))
CSwap(a, b, c) == LET k == c & (a ^^ b) IN <<a ^^ k, b ^^ k>>
BitOf(a, k) == (a \div 2 ^ k) % 2
SetBit(a, b, k) == a - BitOf(a, k) * 2 ^ k + b * 2 ^ k
CSub(a, b, c) == CSwap(a, Wr(a - b), c)[1]
CSetBit(a, b, k, c) == CSwap(a, SetBit(a, b, k), c)[1]

Init == /\ kind \in {"compare", "divide"}
        /\ x \in Word /\ y \in Word
        /\ kind = "divide" => y # 0
        /\ i = Bits /\ q = 0 /\ r = 0
\* one step of the division: shift in a bit, subtract and set under a mask
DivStep == /\ kind = "divide" /\ i > 0
           /\ LET k == i - 1
                  s == SetBit(Wr(2 * r), BitOf(x, k), 0)
                  g == CompGte(s, y)
              IN  r' = CSub(s, y, g) /\ q' = CSetBit(q, 1, k, g) /\ i' = k
           /\ UNCHANGED <<kind, x, y>>
Next == DivStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Compare == kind = "compare" =>
  /\ CompEq(x, y) = Mask(x = y)  /\ CompNe(x, y) = Mask(x # y)
  /\ CompGte(x, y) = Mask(x >= y) /\ CompGt(x, y) = Mask(x > y)
  /\ CompLte(x, y) = Mask(x <= y) /\ CompLt(x, y) = Mask(x < y)
Select == kind = "compare" =>
  /\ CSwap(x, y, 0) = <<x, y>> /\ CSwap(x, y, M - 1) = <<y, x>>
  /\ \A k \in 0..(Bits - 1) : CSetBit(x, BitOf(y, k), k, M - 1) = SetBit(x, BitOf(y, k), k) /\ CSetBit(x, 1, k, 0) = x
DivInv == kind = "divide" =>
  /\ r < y
  /\ q % 2 ^ i = 0
  /\ x \div 2 ^ i = (q \div 2 ^ i) * y + r
  /\ 2 * r + 1 < 2 * M /\ (i > 0 => 2 * r < M)     \* the shift loses nothing
Terminates == kind = "divide" => <>(i = 0)
=============================================================================
