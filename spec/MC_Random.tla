------------------------------ MODULE MC_Random ------------------------------
(* The judgement of Random accepts a fair source and rejects the usual broken *)
(* ones.  The source is a pseudo-random generator seeded by x.               *)
EXTENDS Random
CONSTANT Seeds
SeedSet == 1..12
VARIABLES x, kind
Kinds == {"good", "stuck-bit", "copied-word", "repeat", "half", "constant", "counter", "cycle", "rewind"}
PolyKinds == {"poly", "poly-top-missing", "poly-constant", "poly-copied", "poly-low", "poly-too-large"}
Init == x \in Seeds /\ kind \in Kinds \cup PolyKinds
Next == UNCHANGED <<x, kind>>
\* three generators of coprime periods, their upper bits added (Wichmann and Hill)
Step(v) == <<(171 * v[1]) % 30269, (172 * v[2]) % 30307, (170 * v[3]) % 30323>>
Stream(v, n) == FoldLeftDomain(LAMBDA acc, i : LET u == Force(Step(acc.v)) IN
                    [v |-> u, o |-> Append(acc.o, ((u[1] \div 64) + (u[2] \div 32) + (u[3] \div 16)) % 256)], [v |-> v, o |-> <<>>], Rep(0, n)).o
\* 400 draws of three words of two bytes
W(s, i, j) == <<s[6 * (i - 1) + 2 * (j - 1) + 1], s[6 * (i - 1) + 2 * (j - 1) + 2]>>
D(s, i) == CASE kind = "good"        -> <<W(s, i, 1), W(s, i, 2), W(s, i, 3)>>
             [] kind = "stuck-bit"   -> <<W(s, i, 1), W(s, i, 2), <<W(s, i, 3)[1], W(s, i, 3)[2] % 128>>>>
             [] kind = "copied-word" -> <<W(s, i, 1), W(s, i, 1), W(s, i, 3)>>
             [] kind = "repeat"      -> LET k == (i + 1) \div 2 IN <<W(s, k, 1), W(s, k, 2), W(s, i, 3)>>
             [] kind = "half"        -> <<W(s, i, 1), W(s, i, 2), <<0, 0>>>>
             [] kind = "constant"    -> <<W(s, 1, 1), W(s, 1, 2), W(s, 1, 3)>>
             [] kind = "cycle"       -> LET k == ((i - 1) % 150) + 1 IN <<W(s, k, 1), W(s, k, 2), W(s, k, 3)>>
             [] kind = "rewind"      -> LET k == IF i >= 300 /\ i < 310 THEN i - 200 ELSE i IN <<W(s, k, 1), W(s, k, 2), W(s, k, 3)>>
             [] kind = "counter"     -> <<<<i % 256, 0>>, W(s, i, 2), W(s, i, 3)>>
After == LET s == Force(Stream(<<((x * 7919) % 30268) + 1, ((x * 104729) % 30306) + 1, ((x * 1299) % 30322) + 1>>, 2400)) IN
         FoldLeftDomain(LAMBDA acc, i : Force(Draw(acc, Force(D(s, i)))), Fresh, Rep(0, 400))
Judged == kind \in Kinds => (LooksRandom(After) <=> kind = "good")
\* polynomials of three coefficients modulo small and larger numbers
Sample(n) == LET s == Force(Stream(<<((x * 7919) % 30268) + 1, ((x * 104729) % 30306) + 1, ((x * 1299) % 30322) + 1>>, 2400))
                 c(i, j) == ((s[6 * (i - 1) + 2 * (j - 1) + 1] * 256) + s[6 * (i - 1) + 2 * (j - 1) + 2]) % n
             IN  Force([i \in 1..400 |-> Force([j \in 1..3 |->
                   CASE kind = "poly-top-missing" -> IF n <= 16 THEN c(i, j) % (n - 1) ELSE c(i, j) % (n - (n \div 8))
                     [] kind = "poly-constant" -> c(1, j)
                     [] kind = "poly-copied" -> IF j = 3 THEN c(i, 2) ELSE c(i, j)
                     [] kind = "poly-low" -> c(i, j) \div 2
                     [] kind = "poly-too-large" -> IF i = 300 /\ j = 2 THEN n ELSE c(i, j)
                     [] OTHER -> c(i, j)])])
PolyJudged == kind \in PolyKinds => \A n \in {2, 3, 7, 11, 17, 128, 3329} : CoefficientsLookRandom(Sample(n), 3, n) <=> kind = "poly"
=============================================================================
