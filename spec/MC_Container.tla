---------------------------- MODULE MC_Container ----------------------------
(* The container machine with small constants.  Exhaustive: every step from  *)
(* every reachable register content.  Simulation (Gen = TRUE): random long   *)
(* histories, printed as JSON and replayed into the real code.               *)
EXTENDS Container, Json
CONSTANTS AL, MaxLen, Vals, Depth, Mode

VARIABLES R, hist
vars == << R, hist >>

Idx == 0..(MaxLen + 1)
Lists == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Kinds == {"usize", "u8", "u32", "i32"}

\* every step, as a set (exhaustive mode uses few registers)
Steps(D, S) ==
  {<< "new", d, n >> : d \in D, n \in 0..MaxLen} \cup {<< "create", d, n >> : d \in D, n \in 0..MaxLen}
  \cup {<< "from_slice", d, x >> : d \in D, x \in Lists} \cup {<< "from_vec", d, x >> : d \in D, x \in Lists}
  \cup {<< "from_seq", d, s >> : d \in D, s \in S}
  \cup {<< "from_sub", d, s, i, n >> : d \in D, s \in S, i \in Idx, n \in Idx}
  \cup {<< "from_sub_range", d, s, i, n >> : d \in D, s \in S, i \in Idx, n \in Idx}
  \cup {<< "sub", d, s, i, n >> : d \in D \cap SeqRegs, s \in S, i \in Idx, n \in Idx}
  \cup {<< "subr", d, s, i, n >> : d \in D \cap SeqRegs, s \in S, i \in Idx, n \in Idx}
  \cup {<< "range", s, i, n >> : s \in S \cap SeqRegs, i \in Idx, n \in Idx}
  \cup {<< "clone", d, s >> : d \in D, s \in S}
  \cup {<< "from_array", d, x >> : d \in D \cap ArrRegs, x \in [1..AL -> Vals]} \cup {<< "from_public", d, x >> : d \in D, x \in Lists}
  \cup {<< "default", d >> : d \in D} \cup {<< "full", s >> : s \in S \cap ArrRegs} \cup {<< "capacity", s >> : s \in S \cap ArrRegs}
  \cup {<< "chunk_len", s, k, c >> : s \in S \cap ArrRegs, k \in 0..MaxLen, c \in 0..MaxLen}
  \cup {<< "len", s >> : s \in S} \cup {<< "iter", s >> : s \in S}
  \cup {<< "get", s, i, k >> : s \in S, i \in Idx \cup {-1}, k \in Kinds}
  \cup {<< "set", d, i, v, k >> : d \in D, i \in Idx, v \in Vals, k \in Kinds}
  \cup {<< "update_sub", d, i, s, j, n >> : d \in D, i \in Idx, s \in S, j \in Idx, n \in Idx}
  \cup {<< "update", d, i, s >> : d \in D, i \in Idx, s \in S}
  \cup {<< "update_start", d, s >> : d \in D, s \in S}
  \cup {<< "num_chunks", s, k >> : s \in S, k \in 0..MaxLen}
  \cup {<< "get_chunk", s, k, c >> : s \in S, k \in 0..MaxLen, c \in 0..MaxLen}
  \cup {<< "set_chunk", d, k, c, s >> : d \in D, k \in 0..MaxLen, c \in 0..MaxLen, s \in S}
Legal(o) == /\ o[1] = "clone" => IsArr(o[2]) = IsArr(o[3])
            /\ o[1] = "get" => (o[3] >= 0 \/ o[4] = "i32")

\* every step respects the frame and position laws, whether or not it leads to a new state
Take(o) == /\ R' = Step(R, o)[3]
           /\ Assert(Frame(R, o, R'), << "frame", R, o >>)
           /\ Assert(Positions(R, o, R'), << "positions", R, o >>)

\* random steps: sizes are drawn so that most of them are accepted
Rnd(X) == RandomElement(X)
Near(n) == IF Rnd(1..12) = 1 THEN BIG ELSE IF Rnd(1..6) = 1 THEN Rnd(0..(n + 2)) ELSE Rnd(0..n)
RndList(n) == TLCEval([i \in 1..n |-> Rnd(0..255)])
ChunkName == << "num_chunks", "get_chunk", "get_chunk", "chunk_len", "set_chunk", "set_chunk", "set_chunk", "from_vec", "from_slice", "sub", "set" >>
AllName == << "new", "create", "from_slice", "from_vec", "from_seq", "from_sub", "from_sub_range", "sub", "subr", "range",
           "clone", "len", "iter", "get", "set", "set", "set", "update_sub", "update_sub", "update_sub", "update_sub", "update", "update",
           "update_start", "num_chunks", "get_chunk", "get_chunk", "set_chunk", "set_chunk", "from_slice", "from_vec",
           "from_array", "from_public", "default", "capacity", "full", "chunk_len" >>
Name == IF Mode = "chunks" THEN ChunkName ELSE AllName
RndStep ==
  LET op == Name[Rnd(1..Len(Name))]
      d == Rnd(Regs)  s == Rnd(Regs)  q == Rnd(SeqRegs)
      n == Rnd(0..MaxLen)
      w == IF IsArr(d) /\ Rnd(1..4) # 1 THEN AL ELSE n                 \* a length for building d
      i == Near(Len(R[d]))  j == Near(Len(R[s]))
      room == LET a == Len(R[d]) - i b == Len(R[s]) - j IN IF a < b THEN a ELSE b
      m == IF Rnd(1..12) = 1 THEN BIG ELSE IF room < 0 THEN Rnd(0..2) ELSE IF Rnd(1..8) = 1 THEN room + 1 ELSE Rnd(0..room)
      ms == LET a == Len(R[s]) - j IN IF IsArr(d) /\ Rnd(1..3) # 1 THEN AL ELSE IF a < 0 THEN Rnd(0..2) ELSE IF Rnd(1..8) = 1 THEN a + 1 ELSE Rnd(0..a)
      jj == IF j = BIG THEN j ELSE IF IsArr(d) /\ Len(R[s]) >= AL THEN Rnd(0..(Len(R[s]) - AL)) ELSE j
      k == Rnd(Kinds)
      c == Rnd(1..4)
      kk == IF Rnd(1..10) = 1 THEN 0 ELSE c
      cn == IF Rnd(1..6) = 1 THEN Rnd(0..(MaxLen + 1)) ELSE LET h == CeilDivN(Len(R[d]), c) IN IF h = 0 THEN 0 ELSE Rnd(0..(h - 1))
      want == IF kk > 0 /\ cn * kk <= Len(R[d]) THEN ChunkLen(Len(R[d]), kk, cn) ELSE 0
      fit == {x \in Regs : Len(R[x]) = want}
      cs == IF fit # {} /\ Rnd(1..5) # 1 THEN Rnd(fit) ELSE s
      cap(x) == IF x = BIG THEN MaxLen + 3 ELSE x
  IN  CASE op = "new" -> << op, d, n >>
        [] op = "create" -> << op, d, w >>
        [] op \in {"from_slice", "from_vec"} -> << op, d, RndList(w) >>
        [] op = "from_seq" -> << op, d, s >>
        [] op = "from_sub" -> << op, d, s, jj, ms >>
        [] op = "from_sub_range" -> << op, d, s, jj, IF jj = BIG THEN 3 ELSE IF Rnd(1..8) = 1 THEN Rnd(0..jj) ELSE jj + ms >>
        [] op = "sub" -> << op, q, s, j, IF Rnd(1..20) = 1 THEN BIG ELSE LET a == Len(R[s]) - j IN IF a < 0 THEN 1 ELSE IF Rnd(1..8) = 1 THEN a + 1 ELSE Rnd(0..a) >>
        [] op = "subr" -> << op, q, s, j, IF j = BIG THEN 3 ELSE IF Rnd(1..8) = 1 THEN Rnd(0..j) ELSE Rnd(j..(Len(R[s]) + 1 + j)) >>
        [] op = "range" -> LET a == cap(Near(Len(R[q]))) IN << op, q, a, Rnd(0..(Len(R[q]) + 1)) >>
        [] op = "clone" -> IF IsArr(d) THEN << op, d, 9 - d >> ELSE << op, d, (d % 3) + 1 >>
        [] op \in {"len", "iter", "default"} -> << op, d >>
        [] op \in {"full", "capacity"} -> << op, Rnd(ArrRegs) >>
        [] op = "from_array" -> << op, Rnd(ArrRegs), RndList(AL) >>
        [] op = "from_public" -> << op, d, RndList(w) >>
        [] op = "chunk_len" -> << op, Rnd(ArrRegs), kk, cn >>
        [] op = "get" -> IF k = "i32" /\ Rnd(1..4) = 1 THEN << op, d, -1 - Rnd(0..3), k >> ELSE << op, d, cap(i), k >>
        [] op = "set" -> IF k = "i32" /\ Rnd(1..8) = 1 THEN << op, d, -1, Rnd(0..255), k >> ELSE << op, d, cap(i), Rnd(0..255), k >>
        [] op = "update_sub" -> << op, d, i, s, j, m >>
        [] op = "update" -> << op, d, i, s >>
        [] op = "update_start" -> << op, d, s >>
        [] op = "num_chunks" -> << op, d, kk >>
        [] op = "get_chunk" -> << op, d, kk, cn >>
        [] op = "set_chunk" -> << op, d, kk, cn, cs >>

Init == R = Start(AL) /\ hist = <<>>
Exhaustive == \E o \in Steps({1, 2, 4}, {1, 2, 4}) : Legal(o) /\ Take(o) /\ hist' = hist
Random ==
  /\ Len(hist) < Depth
  /\ \E o \in {RndStep} :
     /\ Take(o)
     /\ hist' = Append(hist, o)
     /\ IF Len(hist') = Depth THEN PrintT(ToJson(hist')) ELSE TRUE
Next == IF Mode = "exhaustive" THEN Exhaustive ELSE Random

PartitionOK == \A d \in Regs : \A k \in 1..(MaxLen + 1) : Partition(R, d, k)
=============================================================================
