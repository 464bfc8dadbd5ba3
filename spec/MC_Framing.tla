----------------------------- MODULE MC_Framing -----------------------------
(* What the hash functions and authenticators feed to their compression       *)
(* functions determines the message: every padding and framing rule of the    *)
(* specification has a left inverse, and produces whole blocks of minimal     *)
(* number.  Messages of every length up to MaxLen, filled in ways that look   *)
(* like padding; for the AEAD framing pairs of lengths (aad, ciphertext).     *)
EXTENDS Keccak, Blake2b, ChaCha, GCM
CONSTANTS MaxLen, MaxPair
VARIABLES m, a, kind
vars == <<m, a, kind>>

Fills == {"zero", "ones", "pad", "pad2", "count", "tail80"}
Fill(f, n) ==
  Force([i \in 1..n |-> CASE f = "zero" -> 0 [] f = "ones" -> 255 [] f = "pad" -> IF i = n THEN 128 ELSE 0
                         [] f = "pad2" -> IF i = n THEN 6 ELSE IF i = n - 1 THEN 31 ELSE 0
                         [] f = "count" -> i % 256 [] f = "tail80" -> IF i > n - 9 THEN 128 ELSE 1])
Init == /\ kind \in {<<"one", n, f>> : n \in 0..MaxLen, f \in Fills} \cup {<<"two", n, k>> : n \in 0..MaxPair, k \in 0..MaxPair}
        /\ m = <<>> /\ a = <<>>
Next == \/ kind[1] = "one" /\ m' = Fill(kind[3], kind[2]) /\ kind' = <<"message", 0, 0>> /\ UNCHANGED a
        \/ kind[1] = "two" /\ kind' = <<"pair", 0, 0>>
           /\ \E f, g \in {"zero", "ones", "pad"} : a' = Fill(f, kind[2]) /\ m' = Fill(g, kind[3])
Spec == Init /\ [][Next]_vars

Num(b) == B2N(Rev(SubSeq(b, Len(b) - 3, Len(b))))            \* small big-endian number
UnpadSHA(p) == SubSeq(p, 1, Num(p) \div 8)
SHAFraming == kind[1] = "message" =>
  LET p == Pad(m) IN /\ UnpadSHA(p) = m /\ Len(p) % 64 = 0 /\ Len(p) - Len(m) \in 9..72
                     /\ Concat(Blocks(p, 64)) = p
LastNonZero(p) == FoldLeftDomain(LAMBDA s, i : IF p[i] # 0 THEN i ELSE s, 0, p)
UnpadSponge(p) ==                                            \* <<suffix, message>>
  LET q == [p EXCEPT ![Len(p)] = p[Len(p)] - 128]  k == LastNonZero(q) IN <<q[k], SubSeq(q, 1, k - 1)>>
SpongeFraming == kind[1] = "message" =>
  \A rate \in {72, 104, 136, 144, 168}, s \in {6, 31} :
    LET p == SpongePad(m, rate, s) IN /\ UnpadSponge(p) = <<s, m>> /\ Len(p) % rate = 0 /\ Len(p) - Len(m) \in 1..rate
                                      /\ Concat(Blocks(p, rate)) = p
BFrames(x) == LET n == Max2(1, CeilDiv(Len(x), 128)) IN
  Force([i \in 1..n |-> <<EndsUp(Block(x, 128, i - 1), 128), Min2(Len(x), 128 * i), i = n>>])
BUnframe(f) == SubSeq(Concat(Force([i \in 1..Len(f) |-> f[i][1]])), 1, f[Len(f)][2])
Blake2Framing == kind[1] = "message" =>
  LET f == BFrames(m) IN BUnframe(f) = m /\ \A i \in 1..Len(f) : Len(f[i][1]) = 128 /\ (f[i][3] <=> i = Len(f))
\* Poly1305 blocks carry their own end marker
PolyFraming == kind[1] = "message" =>
  LET b == PolyBlocks(m) IN Concat(Force([i \in 1..Len(b) |-> SubSeq(b[i], 1, Len(b[i]) - 1)])) = m
                            /\ \A i \in 1..Len(b) : b[i][Len(b[i])] = 1 /\ (i < Len(b) => Len(b[i]) = 17)
UnMac(x) == LET n == Len(x)  la == B2N(SubSeq(x, n - 15, n - 12))  lc == B2N(SubSeq(x, n - 7, n - 4))
            IN  <<SubSeq(x, 1, la), SubSeq(x, 16 * CeilDiv(la, 16) + 1, 16 * CeilDiv(la, 16) + lc)>>
AeadFraming == kind[1] = "pair" =>
  LET x == AeadMacData(a, m)
      g == PadBlocks(a) \o PadBlocks(m) \o << Len64(Len(a)) \o Len64(Len(m)) >>
      y == Concat(g)
      la == Num(SubSeq(y, Len(y) - 15, Len(y) - 8)) \div 8
      lc == Num(y) \div 8
  IN  /\ UnMac(x) = <<a, m>> /\ Len(x) % 16 = 0
      /\ SubSeq(y, 1, la) = a /\ SubSeq(y, 16 * CeilDiv(la, 16) + 1, 16 * CeilDiv(la, 16) + lc) = m
      /\ \A i \in 1..Len(g) : Len(g[i]) = 16
=============================================================================
