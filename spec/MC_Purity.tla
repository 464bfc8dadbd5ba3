----------------------------- MODULE MC_Purity -----------------------------
(* Systems of two functions with two arguments each, on two threads: a pure   *)
(* one and impure ones with the kinds of hidden state real code grows.  The   *)
(* observer of Purity must accept every history of the pure one and, within   *)
(* Depth calls, reject some history of every impure one: that is what the     *)
(* histories replayed into the code are able to see.                          *)
EXTENDS Purity
CONSTANT Depth

F == {1, 2}  A == {1, 2}  T == {1, 2}
Value(f, a) == 10 * f + a                      \* what the pure function gives
Impure == {"last-result", "cache-by-function", "cache-by-argument", "cache-first-key", "third-call", "third-call-of-thread",
           "poisoned-by-other", "poisoned-by-other-thread", "initialised-by-first", "every-second-call", "carry-over", "after-repeat"}
Systems == Impure \cup {"pure"}

VARIABLES sys, h, hid, mem, bad
vars == <<sys, h, hid, mem, bad>>
\* hid: everything a process could remember: the calls made so far with their results
Calls == [f : F, a : A, t : T]

On(t) == SelectSeq(hid, LAMBDA c : c.t = t)
Result(c) ==
  LET n == Len(hid)
      v == Value(c.f, c.a)
      same(p(_)) == SelectSeq(hid, p)
  IN CASE sys = "pure" -> v
       [] sys = "last-result" -> IF n > 0 /\ hid[n].f = c.f THEN hid[n].r ELSE v
       [] sys = "cache-by-function" -> LET q == same(LAMBDA x : x.f = c.f) IN IF q # <<>> THEN q[1].r ELSE v
       [] sys = "cache-by-argument" -> LET q == same(LAMBDA x : x.a = c.a) IN IF q # <<>> THEN q[1].r ELSE v
       [] sys = "cache-first-key" -> LET q == same(LAMBDA x : x.f = c.f /\ x.t = c.t) IN IF q # <<>> THEN q[1].r ELSE v
       [] sys = "third-call" -> IF n = 2 THEN 0 ELSE v
       [] sys = "third-call-of-thread" -> IF Len(On(c.t)) = 2 THEN 0 ELSE v
       [] sys = "poisoned-by-other" -> IF n > 0 /\ hid[n].f = 2 /\ c.f = 1 THEN 0 ELSE v
       [] sys = "poisoned-by-other-thread" -> IF n > 0 /\ hid[n].t # c.t THEN 0 ELSE v
       [] sys = "initialised-by-first" -> IF n > 0 /\ hid[1].a = 2 THEN v + 1 ELSE v
       [] sys = "every-second-call" -> IF n % 2 = 1 THEN v + 1 ELSE v
       [] sys = "carry-over" -> IF n > 0 THEN v + hid[n].a - 1 ELSE v
       [] sys = "after-repeat" -> IF n > 1 /\ hid[n].f = hid[n - 1].f /\ hid[n].a = hid[n - 1].a /\ hid[n].f = c.f THEN 0 ELSE v

Key(c) == <<c.f, c.a>>
Init == /\ sys \in Systems
        /\ h = <<>> /\ hid = <<>> /\ mem = <<>> /\ bad = FALSE
Call(c) == LET r == Result(c) IN
  /\ Len(h) < Depth
  /\ h' = Append(h, c)
  /\ hid' = Append(hid, [f |-> c.f, a |-> c.a, t |-> c.t, r |-> r])
  \* the observer compares with what a fresh process gives: Value, for every one of these systems
  /\ bad' = (bad \/ r # Value(c.f, c.a))
  /\ mem' = IF \E i \in DOMAIN mem : mem[i] = <<Key(c), r>> THEN mem ELSE Append(mem, <<Key(c), r>>)
  /\ UNCHANGED sys
Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars
\* a pure system is never rejected
Sound == sys = "pure" => ~bad
\* bad without a reference process: two results for one call in the same history
SelfBad == \E i, j \in DOMAIN mem : mem[i][1] = mem[j][1] /\ mem[i][2] # mem[j][2]
SelfImplies == SelfBad => bad
ASSUME TLCSet(1, {}) /\ TLCSet(2, {})
Note == /\ (bad /\ sys \notin TLCGet(1) => TLCSet(1, TLCGet(1) \cup {sys}))
        /\ (SelfBad /\ sys \notin TLCGet(2) => TLCSet(2, TLCGet(2) \cup {sys}))
\* caches give one wrong answer for good: only a fresh process tells
Caches == {"cache-by-function", "cache-by-argument"}
Adequate == TLCGet(1) = Impure /\ TLCGet(2) = Impure \ Caches
=============================================================================
