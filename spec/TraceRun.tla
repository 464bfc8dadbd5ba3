------------------------------ MODULE TraceRun ------------------------------
(* Generic trace checking.  A trace (ndjson, path in environment variable    *)
(* TRACE) is a sequence of events recorded from the real code; an event with *)
(* op = "begin" starts a fresh segment, whose initial abstract state is      *)
(* St0(event).  Every other event is one call: its arguments, and            *)
(*   p = 0  the call returned r        p = 1  it panicked                    *)
(*   p = 2  it did not return in time  p = 3  it killed the process          *)
(* Outcome(st, e) is the specification's answer for that call in abstract    *)
(* state st: [k |-> kind, v |-> value, st |-> successor state].              *)
(* Segments are independent initial states, so TLC's workers share them.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Outcome(_, _), St0(_)

Ret(v)          == [k |-> "ret", v |-> v, st |-> <<>>]          \* must return exactly v
Panics          == [k |-> "panic", v |-> <<>>, st |-> <<>>]     \* must panic
RetOrPanic(v)   == [k |-> "retOrPanic", v |-> v, st |-> <<>>]   \* v or a panic, nothing else
Unspecified     == [k |-> "any", v |-> <<>>, st |-> <<>>]       \* must only terminate
Require(b, v)   == [k |-> IF b THEN "any" ELSE "none", v |-> v, st |-> <<>>]  \* relation over e.r already judged
With(o, s)      == [o EXCEPT !.st = s]

Accepts(o, e) ==
  CASE o.k = "ret"        -> e.p = 0 /\ e.r = o.v
    [] o.k = "panic"      -> e.p = 1
    [] o.k = "retOrPanic" -> e.p = 1 \/ (e.p = 0 /\ e.r = o.v)
    [] o.k = "any"        -> e.p \in {0, 1}
    [] o.k = "none"       -> FALSE

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
IsStart(i) == Log[i].op = "begin"

VARIABLES l,      \* position of the last consumed event
          st,     \* abstract state after it
          ok      \* was it accepted

TraceInit == /\ l \in {i \in 1..N : IsStart(i)}
             /\ st = St0(Log[l])
             /\ ok = TRUE
TraceNext == /\ l < N
             /\ ~IsStart(l + 1)
             /\ LET e == Log[l + 1]
                    o == TLCEval(Outcome(st, e))
                    g == TLCEval(Accepts(o, e))
                IN  /\ l' = l + 1
                    /\ ok' = g
                    /\ st' = o.st
                    /\ IF g THEN TRUE ELSE PrintT("REJECT " \o ToString(l + 1) \o " " \o ToJson([k |-> o.k, v |-> o.v]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, ok>>
\* every event of the trace was consumed
Consumed == TLCGet("stats").distinct = N
=============================================================================
