---------------------------- MODULE Trace_Random ----------------------------
(* Draws of the random constructors (C26). *)
EXTENDS Random, TraceRun
Init0(e) == Fresh
Shape(d, len, w) == Len(d) = len /\ \A i \in DOMAIN d : Len(d[i]) = w
Out(s, e) ==
  CASE e.op = "draw" -> IF e.p = 0 /\ \A i \in DOMAIN e.r : Shape(e.r[i], e.len, e.w)
                        THEN With(Require(TRUE, <<>>), FoldLeft(LAMBDA acc, d : Force(Draw(acc, d)), s, e.r))
                        ELSE With(Require(FALSE, e.len), s)
    [] e.op = "end"  -> IF s.n >= 400 /\ LooksRandom(s) THEN Ret(s.n) ELSE Require(FALSE, <<s.n, s.one, s.chg, s.adj>>)
    [] e.op = "polys" -> Require(e.p = 0 /\ Len(e.r) >= 400 /\ CoefficientsLookRandom(e.r, e.l, e.n), e.l)
    [] e.op = "long" -> Require(e.p = 0 /\ Shape(e.r, e.len, e.w) /\ LongLooksRandom(e.r), e.len)
=============================================================================
