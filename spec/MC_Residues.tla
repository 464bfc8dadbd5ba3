---------------------------- MODULE MC_Residues ----------------------------
(* The loops behind modular arithmetic as transition systems, for every       *)
(* modulus up to MaxN and every operand: inversion by the extended Euclidean  *)
(* algorithm on absolute values (it must fit in the type that holds the       *)
(* modulus, terminate, and give the inverse or refuse), lifting a negative    *)
(* remainder, and unsigned subtraction by repeated addition of the modulus.   *)
EXTENDS Integers, TLC
CONSTANT MaxN
VARIABLES kind, x, n, t, nt, r, nr, neg
vars == <<kind, x, n, t, nt, r, nr, neg>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Init == /\ n \in 1..MaxN
        /\ \/ kind = "invert" /\ x \in 0..(2 * MaxN) /\ t = 0 /\ nt = 1 /\ r = n /\ nr = x % n /\ neg = TRUE
           \* x: operand, t: running value, r: subtrahend
           \/ kind = "lift" /\ x \in (-2 * MaxN)..(2 * MaxN) /\ nt = 0 /\ r = 0 /\ nr = 0 /\ neg = FALSE
              /\ t = IF x < 0 THEN -((-x) % n) ELSE x % n          \* Rust's remainder
           \/ kind = "subtract" /\ x \in 0..(n - 1) /\ r \in 0..(n - 1) /\ t = x /\ nt = 0 /\ nr = 0 /\ neg = FALSE
Euclid == /\ kind = "invert" /\ nr # 0
          /\ LET q == r \div nr IN r' = nr /\ nr' = r - q * nr /\ t' = nt /\ nt' = t + q * nt
          /\ neg' = ~neg /\ UNCHANGED <<kind, x, n>>
Lift == kind = "lift" /\ t < 0 /\ t' = t + n /\ UNCHANGED <<kind, x, n, nt, r, nr, neg>>
Raise == kind = "subtract" /\ t < r /\ t' = t + n /\ UNCHANGED <<kind, x, n, nt, r, nr, neg>>
Next == Euclid \/ Lift \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sign(b) == IF b THEN -1 ELSE 1
Bezout == kind = "invert" =>
  /\ t <= n /\ nt <= n                              \* nothing outgrows the modulus
  /\ (r - Sign(neg) * t * x) % n = 0 /\ (nr + Sign(neg) * nt * x) % n = 0
  /\ Gcd(r, nr) = Gcd(x, n)
Refused == r > 1 /\ x # 0
Inverse == LET v == IF neg /\ t # 0 THEN n - t ELSE t IN v
InvertOk == (kind = "invert" /\ nr = 0) =>
  /\ Refused <=> Gcd(x, n) > 1 /\ x # 0
  /\ (Gcd(x, n) = 1 /\ x # 0) => (x * Inverse - 1) % n = 0 /\ Inverse \in 0..(n - 1)
LiftOk == (kind = "lift" /\ t >= 0) => t = x % n
SubOk == kind = "subtract" => t < 2 * n /\ (t >= r => (t - r) % n = (x - r) % n)
Done == CASE kind = "invert" -> nr = 0 [] kind = "lift" -> t >= 0 [] OTHER -> t >= r
Terminates == <>Done
=============================================================================
