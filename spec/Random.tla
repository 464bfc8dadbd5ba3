------------------------------- MODULE Random -------------------------------
(* Random containers (C26).  A draw is a list of words, a word its bytes.    *)
(* Over many draws, every bit of every word is one about half of the time,   *)
(* and so is its difference from the previous draw and from the neighbouring *)
(* word: a fixed bit, a repeated draw, one word copied into all places or a  *)
(* part left at its default all show.  With 400 independent fair bits the    *)
(* count stays within 120..280 but for a chance of about 10^-15.             *)
(* The draws one after another are one stream of bytes, of which no eight    *)
(* consecutive ones come twice (a chance below 10^-9 even for 70000 bytes):  *)
(* a source that returns to an earlier state at any distance shows.          *)
EXTENDS ByteNum, FiniteSets

BitsOf(d) == LET bs == Concat(d) IN Force([k \in 1..(8 * Len(bs)) |-> Bit(bs, k - 1)])
Diff(a, b) == Force([k \in DOMAIN a |-> IF a[k] = b[k] THEN 0 ELSE 1])
Plus(a, b) == Force([k \in DOMAIN b |-> (IF a = <<>> THEN 0 ELSE a[k]) + b[k]])
Windows(bs) == {SubSeq(bs, i, i + 7) : i \in 1..(Len(bs) - 7)}
NoRepeat(bs) == Len(bs) < 8 \/ Cardinality(Windows(bs)) = Len(bs) - 7
Fresh == [n |-> 0, one |-> <<>>, chg |-> <<>>, adj |-> <<>>, last |-> <<>>, bytes |-> <<>>]
Draw(s, d) ==
  LET b == BitsOf(d)
      w == IF d = <<>> THEN 0 ELSE 8 * Len(d[1])
      m == Len(b) - w
  IN  [n |-> s.n + 1, last |-> b, bytes |-> s.bytes \o Concat(d), one |-> Plus(s.one, b),
       chg |-> IF s.n = 0 THEN <<>> ELSE Plus(s.chg, Diff(b, s.last)),
       adj |-> Plus(s.adj, Diff(SubSeq(b, 1, m), SubSeq(b, w + 1, Len(b))))]
Even(c, n) == \A k \in DOMAIN c : 10 * c[k] >= 3 * n /\ 10 * c[k] <= 7 * n
LooksRandom(s) == Even(s.one, s.n) /\ Even(s.chg, s.n - 1) /\ Even(s.adj, s.n) /\ NoRepeat(s.bytes)
\* one long draw: bits even over its elements, too
LongLooksRandom(d) ==
  /\ NoRepeat(Concat(d))
  /\ Len(d) >= 400 => Even(FoldLeft(LAMBDA acc, x : Force(Plus(acc, BitsOf(<<x>>))), <<>>, d), Len(d))
\* draws of a polynomial: in every place every residue comes (small moduli: each one, larger ones: each eighth
\* of them), none much more often than half of the time more than its share, and the places and draws are independent
CoefficientsLookRandom(ds, l, n) ==
  LET count == Len(ds)
      times(Good(_)) == FoldLeft(LAMBDA acc, d : IF Good(d) THEN acc + 1 ELSE acc, 0, ds)
      same == FoldLeftDomain(LAMBDA acc, j : IF j > 1 THEN Force([k \in 1..l |-> acc[k] + (IF ds[j][k] = ds[j - 1][k] THEN 1 ELSE 0)]) ELSE acc, Rep(0, l), ds)
      part(k, c) == times(LAMBDA d : (IF n <= 16 THEN d[k] ELSE (d[k] * 8) \div n) = c)
      parts == IF n <= 16 THEN n ELSE 8
      \* all coefficients together leave out no part of the range (sixty of them are expected in each)
      fine == LET c == (count * l) \div 60 IN IF c < n THEN c ELSE n
      hit == UNION { { (ds[j][k] * fine) \div n : k \in 1..l } : j \in 1..count }
  IN  /\ \A j \in 1..count : Len(ds[j]) = l /\ \A k \in 1..l : ds[j][k] \in 0..(n - 1)
      /\ \A c \in 0..(fine - 1) : c \in hit
      /\ \A k \in 1..l :
           /\ \A c \in 0..(parts - 1) : LET m == part(k, c) IN m > 0 /\ 10 * m <= 4 * count + ((6 * count) \div parts)
           /\ 10 * same[k] <= 4 * count + ((6 * count) \div parts)
           /\ k > 1 => 10 * times(LAMBDA d : d[k] = d[k - 1]) <= 4 * count + ((6 * count) \div parts)
=============================================================================
