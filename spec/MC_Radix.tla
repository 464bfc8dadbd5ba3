------------------------------ MODULE MC_Radix ------------------------------
(* Every pair of numbers of N limbs below 2^(B+X), on words of W bits: the    *)
(* product is the product modulo 2^(N*B) - C, and its limbs fit b bits but    *)
(* for the last carry.  The bound X on the excess of the operands matters:    *)
(* with MC_RadixBroken.cfg a word overflows.                                  *)
EXTENDS Radix, TLC
CONSTANTS Nn, B, C, W, X
VARIABLES x, y, done
vars == <<x, y, done>>
Limbs == 0..(2^(B + X) - 1)
Init == x \in [1..Nn -> Limbs] /\ y = <<>> /\ done = FALSE
Next == ~done /\ y' \in [1..Nn -> Limbs] /\ done' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Modulus == 2^(Nn * B) - C
Product == done => LET r == RMul(x, y, B, C, W) IN RValue(r, B) % Modulus = (RValue(x, B) * RValue(y, B)) % Modulus
NoExcess == done => LET r == RMul(x, y, B, C, W) IN \A i \in 1..Nn : r[i] < 2^B + (IF i = 2 THEN 2^(W - B) ELSE 0)
=============================================================================
