------------------------------- MODULE Keccak -------------------------------
(* FIPS 202.  Lanes are 8-byte little-endian tuples; the state is the        *)
(* sequence of 25 lanes, lane (x,y) at index x + 5y + 1.  Rotation offsets   *)
(* and round constants are computed from their definitions (section 3.2).    *)
EXTENDS ByteNum

Lane(x, y) == ((x % 5) + 5 * (y % 5)) + 1

\* rho offsets: (t+1)(t+2)/2 along the walk (x,y) <- (y, 2x+3y) from (1,0)
RhoWalk == FoldLeftDomain(LAMBDA s, t :
              [ x |-> s.y, y |-> (2 * s.x + 3 * s.y) % 5,
                o |-> [s.o EXCEPT ![Lane(s.x, s.y)] = ((t * (t + 1)) \div 2) % 64] ],
              [x |-> 1, y |-> 0, o |-> Force([i \in 1..25 |-> 0])], Force([i \in 1..24 |-> i]))
RhoOff == Force(RhoWalk.o)

\* rc(t): the linear feedback shift register of section 3.2.5; round constants of iota
LfsrBits == FoldLeft(LAMBDA s, t :
               LET r == <<0>> \o s.r                        \* r = 0 || R  (9 bits, r[1] is R[0])
                   r8 == r[9]
                   n == Force([i \in 1..8 |-> IF i \in {1, 5, 6, 7} THEN (r[i] + r8) % 2 ELSE r[i]])
               IN  [r |-> n, o |-> Append(s.o, n[1])],
               [r |-> <<1,0,0,0,0,0,0,0>>, o |-> <<1>>], Force([i \in 1..254 |-> i])).o
RcBit(t) == LfsrBits[(t % 255) + 1]
IotaRC == Force([ir \in 1..24 |->
            FoldLeft(LAMBDA a, j : IF RcBit(j + 7 * (ir - 1)) = 1 THEN BXor(a, Pow2B(2^j - 1, 8), 8) ELSE a,
                     Zero(8), <<0,1,2,3,4,5,6>>)])

X8(a, b) == BXor(a, b, 8)
Theta(a) ==
  LET c == Force([x \in 1..5 |-> X8(X8(X8(X8(a[x], a[x+5]), a[x+10]), a[x+15]), a[x+20])])
      d == Force([x \in 1..5 |-> X8(c[((x + 3) % 5) + 1], Rotl(c[(x % 5) + 1], 1, 8))])
  IN  Force([i \in 1..25 |-> X8(a[i], d[((i - 1) % 5) + 1])])
RhoPi(a) ==                                      \* B[y, 2x+3y] = rot(A[x,y])
  Force([i \in 1..25 |-> LET x == (i - 1) % 5  y == (i - 1) \div 5
                             src == Lane(x + 3 * y, x)       \* inverse of the walk
                         IN  Rotl(a[src], RhoOff[src], 8)])
Chi(a) == Force([i \in 1..25 |-> LET x == (i - 1) % 5  y == (i - 1) \div 5
                                 IN  X8(a[i], BAnd(BNot(a[Lane(x+1, y)], 8), a[Lane(x+2, y)], 8))])
KRound(a, rc) == LET b == Chi(RhoPi(Theta(a))) IN [b EXCEPT ![1] = X8(b[1], rc)]
KeccakF(a) == FoldLeft(LAMBDA s, rc : KRound(s, rc), a, IotaRC)

State0 == Force([i \in 1..25 |-> Zero(8)])
XorBlock(a, blk) ==                              \* blk: rate bytes (multiple of 8)
  Force([i \in 1..25 |-> IF 8 * i <= Len(blk) THEN X8(a[i], Block(blk, 8, i - 1)) ELSE a[i]])
StateBytes(a) == Concat(a)
\* pad10*1 with domain bits: one byte suffix (0x06 SHA-3, 0x1f SHAKE), last bit 0x80
SpongePad(m, rate, suffix) ==
  LET q == rate - (Len(m) % rate)                \* 1..rate bytes of padding
  IN  m \o (IF q = 1 THEN <<suffix + 128>> ELSE <<suffix>> \o Rep(0, q - 2) \o <<128>>)
Absorb(m, rate, suffix) ==
  FoldLeft(LAMBDA s, b : KeccakF(XorBlock(s, b)), State0, Blocks(SpongePad(m, rate, suffix), rate))
Squeeze(s, rate, n) ==                           \* first n bytes of the output stream
  LET k == CeilDiv(n, rate)
      z == FoldLeftDomain(LAMBDA a, i : [s |-> IF i = k THEN a.s ELSE KeccakF(a.s),
                                         o |-> a.o \o SubSeq(StateBytes(a.s), 1, rate)],
                          [s |-> s, o |-> <<>>], Rep(0, k))
  IN  SubSeq(z.o, 1, n)
Sponge(m, rate, suffix, n) == Squeeze(Absorb(m, rate, suffix), rate, n)
SHA3(m, bits) == Sponge(m, 200 - (bits \div 4), 6, bits \div 8)
SHAKE(m, bits, n) == Sponge(m, 200 - (bits \div 4), 31, n)
=============================================================================
