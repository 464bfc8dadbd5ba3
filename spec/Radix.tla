------------------------------- MODULE Radix -------------------------------
(* Multiplication modulo 2^(n*b) - c of numbers written as n limbs of b bits  *)
(* each (a limb may exceed b bits), on machine words of w bits, as the field  *)
(* multiplication of secret-integers/examples/dalek.rs does it with n = 5,    *)
(* b = 51, c = 19, w = 64: products of limbs in double words, the limbs above *)
(* the modulus folded back with factor c, one pass of carries.                *)
(* Natural numbers; MC_Radix runs it on small words.                          *)
EXTENDS Integers, Sequences
LOCAL Sum(f(_), n) == LET s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i-1] + f(i) IN s[n]
RValue(x, b) == Sum(LAMBDA i : x[i] * 2^(b * (i-1)), Len(x))
\* coefficient k (0-based) of the product
RCoeff(x, y, c, w, k) ==
  LET n == Len(x)
      term(i) == LET j == k - (i-1)                                \* 0-based index into y
                 IN  IF j >= 0 THEN x[i] * y[j+1] ELSE x[i] * ((y[j+1+n] * c) % 2^w)
  IN  Sum(term, n) % 2^(2*w)
RMul(x, y, b, c, w) ==
  LET n == Len(x)
      \* carries: word-sized, into the next coefficient
      t[k \in 0..n-1] == (RCoeff(x, y, c, w, k) + (IF k = 0 THEN 0 ELSE (t[k-1] \div 2^b) % 2^w)) % 2^(2*w)
      low(k) == (t[k] % 2^w) % 2^b
      top == (t[n-1] \div 2^b) % 2^w
      o1 == (low(0) + ((top * c) % 2^w)) % 2^w
  IN  [i \in 1..n |-> CASE i = 1 -> o1 % 2^b [] i = 2 -> (low(1) + (o1 \div 2^b)) % 2^w [] OTHER -> low(i-1)]
=============================================================================
