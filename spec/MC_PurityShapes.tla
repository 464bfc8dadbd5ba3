--------------------------- MODULE MC_PurityShapes ---------------------------
(* The shapes of histories: which step repeats which call, on which thread,   *)
(* up to renaming of calls and threads.                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NCalls, NThreads
VARIABLE h
Top(i) == LET S == {h[j][i] : j \in DOMAIN h} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Init == h = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Next == /\ Len(h) < Depth
        /\ \E c \in 1..Min(NCalls, Top(1) + 1), t \in 1..Min(NThreads, Top(2) + 1) : h' = Append(h, <<c, t>>)
Emit == IF Len(h) = Depth THEN PrintT(ToJson(h)) ELSE TRUE
=============================================================================
