------------------------------ MODULE Container ------------------------------
(* Sequences and fixed-size arrays as mathematical lists (C05, C06).         *)
(* The state is five registers: 1..3 hold sequences (their length may only   *)
(* change by construction), 4..5 hold arrays of the fixed length AL.         *)
(* A step is a tuple <<name, arguments ...>>; Step gives its outcome:        *)
(*   <<"ret", value, registers'>>  or  <<"panic", <<>>, registers>>          *)
(* (a refused operation changes nothing).  Positions are 0-based.            *)
EXTENDS Integers, Sequences, TLC

Regs == 1..5
SeqRegs == 1..3
ArrRegs == 4..5
IsArr(d) == d >= 4
Zeros(n) == [i \in 1..n |-> 0]
Start(al) == << <<>>, <<>>, <<>>, Zeros(al), Zeros(al) >>

\* BIG stands for the largest machine index
BIG == 2000000000
Inside(start, len, n) == start < BIG /\ len < BIG /\ start >= 0 /\ len >= 0 /\ start + len <= n
Slice(x, start, len) == SubSeq(x, start + 1, start + len)
Overlay(x, so, y, si, len) == TLCEval([i \in 1..Len(x) |-> IF i > so /\ i <= so + len THEN y[si + i - so] ELSE x[i]])
CeilDivN(n, k) == (n + k - 1) \div k
ChunkLen(n, k, c) == IF (c + 1) * k <= n THEN k ELSE n - c * k
\* an empty chunk: size 0, or the position just behind the last element
AtEnd(k, c, n) == k = 0 \/ (c = 0 /\ n = 0) \/ (k > 0 /\ k <= n /\ n % k = 0 /\ c = n \div k)
ArrLen(R) == Len(R[4])

Refuse(R) == << "panic", <<>>, R >>
Reply(R, v) == << "ret", v, R >>
Put(R, d, x) == << "ret", 0, [R EXCEPT ![d] = x] >>
\* building register d from the list x: arrays only accept their own length
Build(R, d, x) == IF IsArr(d) /\ Len(x) # ArrLen(R) THEN Refuse(R) ELSE Put(R, d, x)
Update(R, d, so, s, si, len) ==
  IF Inside(so, len, Len(R[d])) /\ Inside(si, len, Len(R[s]))
  THEN Put(R, d, Overlay(R[d], so, R[s], si, len)) ELSE Refuse(R)

Step(R, o) ==
  LET op == o[1] IN
  CASE op = "new"        -> Put(R, o[2], IF IsArr(o[2]) THEN Zeros(ArrLen(R)) ELSE Zeros(o[3]))
    [] op = "create"     -> Build(R, o[2], Zeros(o[3]))
    [] op = "from_slice" -> \* arrays zero-extend a shorter slice
         IF IsArr(o[2]) THEN (IF Len(o[3]) > ArrLen(R) THEN Refuse(R)
                              ELSE Put(R, o[2], o[3] \o Zeros(ArrLen(R) - Len(o[3]))))
         ELSE Put(R, o[2], o[3])
    [] op = "from_vec"   -> Build(R, o[2], o[3])
    [] op = "from_seq"   -> Build(R, o[2], R[o[3]])
    [] op = "from_sub"   -> IF Inside(o[4], o[5], Len(R[o[3]])) THEN Build(R, o[2], Slice(R[o[3]], o[4], o[5])) ELSE Refuse(R)
    [] op = "from_sub_range" ->                              \* from..to
         IF o[4] <= o[5] /\ Inside(o[4], o[5] - o[4], Len(R[o[3]]))
         THEN Build(R, o[2], Slice(R[o[3]], o[4], o[5] - o[4])) ELSE Refuse(R)
    [] op = "sub"        -> IF Inside(o[4], o[5], Len(R[o[3]])) THEN Put(R, o[2], Slice(R[o[3]], o[4], o[5])) ELSE Refuse(R)
    [] op = "subr"       -> IF o[4] <= o[5] /\ Inside(o[4], o[5] - o[4], Len(R[o[3]]))
                            THEN Put(R, o[2], Slice(R[o[3]], o[4], o[5] - o[4])) ELSE Refuse(R)
    [] op = "range"      -> IF o[3] <= o[4] /\ Inside(o[3], o[4] - o[3], Len(R[o[2]]))
                            THEN Reply(R, Slice(R[o[2]], o[3], o[4] - o[3])) ELSE Refuse(R)
    [] op = "clone"      -> Put(R, o[2], R[o[3]])
    [] op = "from_array" -> Build(R, o[2], o[3])              \* a list of exactly the array's length
    [] op = "from_public" -> Build(R, o[2], o[3])             \* classify a public list
    [] op = "default"    -> Put(R, o[2], IF IsArr(o[2]) THEN Zeros(ArrLen(R)) ELSE <<>>)
    [] op = "capacity"   -> Reply(R, ArrLen(R))
    [] op = "full"       -> Reply(R, R[o[2]])                 \* x[..]
    [] op = "len"        -> Reply(R, Len(R[o[2]]))
    [] op = "iter"       -> Reply(R, R[o[2]])
    [] op = "get"        -> IF o[3] \in 0..(Len(R[o[2]]) - 1) THEN Reply(R, R[o[2]][o[3] + 1]) ELSE Refuse(R)
    [] op = "set"        -> IF o[3] \in 0..(Len(R[o[2]]) - 1) THEN Put(R, o[2], [R[o[2]] EXCEPT ![o[3] + 1] = o[4]]) ELSE Refuse(R)
    [] op = "update_sub" -> Update(R, o[2], o[3], o[4], o[5], o[6])
    [] op = "update"     -> Update(R, o[2], o[3], o[4], 0, Len(R[o[4]]))
    [] op = "update_start" -> Update(R, o[2], 0, o[3], 0, Len(R[o[3]]))
    \* --- chunks (C06): size o[3], number o[4]
    [] op = "num_chunks" -> IF o[3] = 0 THEN Refuse(R) ELSE Reply(R, CeilDivN(Len(R[o[2]]), o[3]))
    [] op = "get_chunk"  -> IF o[3] > 0 /\ o[4] < CeilDivN(Len(R[o[2]]), o[3])
                            THEN LET n == ChunkLen(Len(R[o[2]]), o[3], o[4])
                                 IN  Reply(R, << n, Slice(R[o[2]], o[4] * o[3], n) >>)
                            ELSE IF AtEnd(o[3], o[4], Len(R[o[2]])) THEN << "any", << 0, <<>> >>, R >>   \* empty chunk or refusal
                            ELSE Refuse(R)
    [] op = "chunk_len"  -> IF o[3] > 0 /\ o[4] < CeilDivN(Len(R[o[2]]), o[3])
                            THEN Reply(R, ChunkLen(Len(R[o[2]]), o[3], o[4]))
                            ELSE IF AtEnd(o[3], o[4], Len(R[o[2]])) THEN << "any", 0, R >> ELSE Refuse(R)
    [] op = "set_chunk"  -> IF o[3] > 0 /\ o[4] < CeilDivN(Len(R[o[2]]), o[3])
                            THEN LET n == ChunkLen(Len(R[o[2]]), o[3], o[4])
                                 IN  IF Len(R[o[5]]) # n THEN Refuse(R)
                                     ELSE Put(R, o[2], Overlay(R[o[2]], o[4] * o[3], R[o[5]], 0, n))
                            ELSE IF AtEnd(o[3], o[4], Len(R[o[2]])) /\ R[o[5]] = <<>> THEN << "any", 0, R >>
                            ELSE Refuse(R)

----------------------------------------------------------------------------
(* What a step may touch, said independently of Step: used as action         *)
(* properties of the model.                                                  *)
Target(o) == IF o[1] \in {"len", "iter", "get", "range", "num_chunks", "get_chunk", "chunk_len", "capacity", "full"} THEN 0 ELSE o[2]
Constructs(o) == o[1] \in {"new", "create", "from_slice", "from_vec", "from_seq", "from_sub", "from_sub_range", "sub", "subr", "clone",
                          "from_array", "from_public", "default"}
\* registers other than the target keep their value; only constructions change a length
Frame(R, o, R2) ==
  /\ \A d \in Regs : d # Target(o) => R2[d] = R[d]
  /\ ~Constructs(o) => \A d \in Regs : Len(R2[d]) = Len(R[d])
  /\ \A d \in ArrRegs : Len(R2[d]) = Len(R[d])
\* an element changes only if it is addressed, and then it equals the source element
Positions(R, o, R2) ==
  LET d == Target(o) IN
  CASE o[1] = "set" -> \A i \in 1..Len(R[d]) : R2[d][i] = R[d][i] \/ (i = o[3] + 1 /\ R2[d][i] = o[4])
    [] o[1] = "update_sub" -> R2 = R \/ (/\ SubSeq(R2[d], 1, o[3]) = SubSeq(R[d], 1, o[3])
                                        /\ SubSeq(R2[d], o[3] + 1, o[3] + o[6]) = SubSeq(R[o[4]], o[5] + 1, o[5] + o[6])
                                        /\ SubSeq(R2[d], o[3] + o[6] + 1, Len(R[d])) = SubSeq(R[d], o[3] + o[6] + 1, Len(R[d])))
    [] OTHER -> TRUE
\* the chunks of x are a partition of it, in order
RECURSIVE Chunks(_, _, _)
Chunks(R, d, k) ==
  LET n == Step(R, << "num_chunks", d, k >>)[2]
      F[c \in 0..n] == IF c = 0 THEN <<>> ELSE F[c - 1] \o Step(R, << "get_chunk", d, k, c - 1 >>)[2][2]
  IN  F[n]
Partition(R, d, k) ==
  LET n == Step(R, << "num_chunks", d, k >>)[2] IN
  /\ Chunks(R, d, k) = R[d]
  /\ \A c \in 0..(n - 1) : LET l == Step(R, << "get_chunk", d, k, c >>)[2][1] IN l >= 1 /\ l <= k /\ (c < n - 1 => l = k)
=============================================================================
