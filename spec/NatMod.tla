------------------------------- MODULE NatMod -------------------------------
(* The ring of integers modulo n >= 1: an element is its canonical           *)
(* representative in [0, n) as little-endian bytes without leading zeros.    *)
(* `bits` is the size of the canvas type the representatives are stored in.  *)
EXTENDS Bounded

Red(x, n) == Strip(Mod(x, n, Len(n)))                     \* residue of a natural
NAdd(a, b, n) == Red(FullAdd(a, b), n)
NSub(a, b, n) == Strip(SubMod(a, b, n, Len(n)))           \* a, b canonical
NMul(a, b, n) == Red(FullMul(a, b), n)
NPow(a, x, n) == Strip(PowMod(a, x, n, Len(n)))
Canonical(a, n) == a = Strip(a) /\ Lt(a, n)
IsInverse(r, a, n) == Canonical(r, n) /\ NMul(r, a, n) = Red(<<1>>, n)

\* small moduli on TLC's integers
RECURSIVE PowN(_, _, _)
PowN(a, k, n) == IF k = 0 THEN 1 % n ELSE (a * PowN(a, k - 1, n)) % n
InvN(a, n) == IF GcdN(a, n) = 1 THEN CHOOSE r \in 0..(n - 1) : (a * r) % n = 1 % n ELSE -1
SmallMod(f, x, y, n) ==
  CASE f = "add" -> (x + y) % n
    [] f = "sub" -> (x + n - y) % n
    [] f = "mul" -> (x * y) % n
    [] f = "div" -> IF y = 0 THEN OutOfRange ELSE (x \div y) % n
    [] f = "rem" -> IF y = 0 THEN OutOfRange ELSE (x % y) % n
    [] f = "pow" -> PowN(x, y, n)
    [] f = "cmp" -> SignOf(x - y)
=============================================================================
