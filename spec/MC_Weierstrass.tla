--------------------------- MODULE MC_Weierstrass ---------------------------
(* On every curve y^2 = x^3 - 3x + b over small prime fields: the chord and   *)
(* tangent law is a commutative group; the Jacobian formulas agree with it in *)
(* all coordinates and in the exceptional cases; and the Montgomery ladder    *)
(* over them computes multiples without ever adding a point to itself.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Primes, Bits
VARIABLES p, b, pt, kind, data

Ad(x, y) == (x + y) % p
Su(x, y) == (x + p - y) % p
Mu(x, y) == (x * y) % p
Inv(x) == IF x = 0 THEN 0 ELSE CHOOSE y \in 1..(p - 1) : Mu(x, y) = 1
W == INSTANCE Weierstrass WITH Fadd <- Ad, Fsub <- Su, Fmul <- Mu, Finv <- Inv, F0 <- 0, F1 <- 1, F3 <- 3, CurveB <- b
Points == {q \in {W!Inf} \cup ((0..(p - 1)) \X (0..(p - 1))) : W!OnCurve(q)}
Zs == 1..(p - 1)

Init == /\ p \in Primes /\ b \in 0..(p - 1)
        /\ (27 * b * b) % p # 108 % p             \* no multiple root
        /\ pt \in Points
        /\ kind \in {"law", "coordinates", "ladder"}
        /\ data = IF kind = "ladder" THEN [n |-> 0, len |-> 0, acc |-> <<W!JInf, W!JOf(pt)>>] ELSE <<>>
RECURSIVE Mul(_, _)
Mul(k, q) == IF k = 0 THEN W!Inf ELSE W!Plus(Mul(k - 1, q), q)
Next == /\ UNCHANGED <<p, b, pt, kind>>
        /\ \/ kind = "law" /\ data = <<>> /\ data' \in Points \X Points
           \/ kind = "coordinates" /\ data = <<>> /\ data' \in Points \X Zs \X Zs
           \/ /\ kind = "ladder" /\ data.len < Bits /\ pt # W!Inf
              /\ \E k \in {0, 1} : data' = [n |-> 2 * data.n + k, len |-> data.len + 1, acc |-> W!JLadder(data.acc, k)]
Law == (kind = "law" /\ data # <<>>) =>
  LET q == data[1]  r == data[2] IN
  /\ W!OnCurve(W!Plus(pt, q))
  /\ W!Plus(pt, q) = W!Plus(q, pt)
  /\ W!Plus(W!Plus(pt, q), r) = W!Plus(pt, W!Plus(q, r))
  /\ W!Plus(pt, W!Opposite(pt)) = W!Inf /\ W!OnCurve(W!Opposite(pt)) /\ W!Plus(pt, W!Inf) = pt
Jac(q, z) == IF q = W!Inf THEN <<Mu(z, z), Mu(z, Mu(z, z)), 0>> ELSE W!Scaled(W!JOf(q), z)
Coordinates == (kind = "coordinates" /\ data # <<>>) =>
  LET i == Jac(pt, data[2])  j == Jac(data[1], data[3]) IN
  /\ W!ToAffine(i) = pt
  /\ W!ToAffine(W!JDouble(i)) = W!Double(pt)
  /\ W!Addable(i, j) => W!ToAffine(W!JPlus(i, j)) = W!Plus(pt, data[1])
LadderInv == kind = "ladder" =>
  /\ W!ToAffine(data.acc[1]) = Mul(data.n, pt)
  /\ pt # W!Inf => W!ToAffine(data.acc[2]) = Mul(data.n + 1, pt)
  \* so the next step never meets the case the formulas leave out
  /\ pt # W!Inf => W!Addable(data.acc[1], data.acc[2])
\* double and add, most significant bit first, is repeated addition
BitsOf(k, m) == [i \in 1..m |-> (k \div (2 ^ (m - i))) % 2]
TimesInv == kind = "ladder" => W!Times(BitsOf(data.n, data.len), pt) = Mul(data.n, pt)
=============================================================================
