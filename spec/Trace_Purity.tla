---------------------------- MODULE Trace_Purity ----------------------------
(* Recorded histories (C24).  Events: call k (numbered in order of first      *)
(* appearance) of function f with argument variant v on thread at; at = 0 is  *)
(* a process that makes no other call.  before/after are the arguments passed *)
(* by reference or clone, printed before and after the call.                  *)
EXTENDS Purity, TraceRun

Init0(e) == <<>>
Out(s, e) ==
  LET x == <<e.before, e.r>> IN
  IF e.p # 0 \/ e.before # e.after \/ e.k > Len(s) + 1 THEN With(Require(FALSE, <<"arguments changed">>), s)
  ELSE IF Known(s, e.k) THEN With(IF s[e.k][1] # e.before THEN Require(FALSE, <<"recorder">>) ELSE Ret(s[e.k][2]), s)
  ELSE IF e.at # 0 THEN Require(FALSE, <<"recorder">>)
  ELSE With(Unspecified, Learn(s, e.k, x))
=============================================================================
