------------------------------- MODULE Purity -------------------------------
(* What it means for a history of calls to come from functions: there is one  *)
(* result per call (function and arguments), whatever was called before, by   *)
(* whichever thread, and however often.  The specification's state is the     *)
(* memory of the results seen so far; it is the weakest observer that accepts *)
(* all histories of pure functions and no other history.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* mem: results by call number; a call is identified by its position in mem
Known(mem, k) == k \in DOMAIN mem
Learn(mem, k, r) == IF k = Len(mem) + 1 THEN Append(mem, r) ELSE mem
Consistent(mem, k, r) == Known(mem, k) => mem[k] = r
=============================================================================
