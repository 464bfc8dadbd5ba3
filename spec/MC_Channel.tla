----------------------------- MODULE MC_Channel -----------------------------
(* Exhaustively: the channel opens what was sealed and nothing else.  In mode *)
(* "random" TLC's simulator prints schedules of sealing, splicing, tampering  *)
(* and delivery, which the recorder of C22 replays into the real algorithms.  *)
EXTENDS Channel, TLC, Json, Randomization
CONSTANTS Mode, Depth
VARIABLES alg, hist
Init == ChInit /\ alg \in (IF Mode = "random" THEN {0, 1, 2} ELSE {0}) /\ hist = <<>>
Log(x) == /\ hist' = (IF Mode = "random" THEN Append(hist, x) ELSE hist)
          /\ UNCHANGED alg
Some(S) == IF Mode = "random" THEN {RandomElement(S)} ELSE S
Step ==
  \/ \E k \in Some(Keys), n \in Some(Nonces), a \in Some(Texts), m \in Some(Texts) : Seal(k, n, a, m) /\ Log(<<"seal", k, n, a, m>>)
  \/ \E i \in Some(1..Packets) : Take(i) /\ Log(<<"take", i>>)
  \/ \E f \in Some(Fields), i \in Some(1..Packets) : Splice(f, i) /\ Log(<<"splice", f, i>>)
  \/ \E f \in Some(Fields), p \in Some(Spots) : Flip(f, p) /\ Log(<<"flip", f, p>>)
  \/ \E f \in Some({"a", "c"}) : (Cut(f) /\ Log(<<"cut", f>>)) \/ (Extend(f) /\ Log(<<"extend", f>>))
  \/ Shift /\ Log(<<"shift">>)
  \/ Deliver /\ Log(<<"deliver", Verdict>>)
\* a finished schedule is printed once, from the state that has it
Next == IF Mode = "random" /\ Len(hist) = Depth THEN PrintT(ToJson(<<alg>> \o hist)) /\ FALSE /\ UNCHANGED <<sealed, wire, verdict, alg, hist>>
        ELSE Step
=============================================================================
