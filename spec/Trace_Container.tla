--------------------------- MODULE Trace_Container ---------------------------
(* Histories of the real containers.  e.o is the step; the reply is          *)
(* << value, all registers after the call >>.                                *)
(* "wide" events are single steps on containers of more than 65536 elements: *)
(* the registers are filled by a rule before the step, and the reply tells   *)
(* which of their elements are different afterwards.                         *)
EXTENDS Container, TraceRun
Init0(e) == Start(e.al)
Fill(n, k) == TLCEval([i \in 1..n |-> (i * 7 + i \div 251 + k) % 256])
Delta(x, y) ==
  CASE x = y -> << 0, <<>>, <<>> >>
    [] Len(x) = Len(y) -> LET ps == TLCEval(SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i] # y[i]))
                          IN  << 0, ps, [j \in DOMAIN ps |-> y[ps[j]]] >>
    [] OTHER -> << 1, <<>>, y >>
Wide(e) ==
  LET R == TLCEval(<< Fill(e.n, 1), Fill(e.m, 2), e.c, Fill(e.al, 4), Fill(e.al, 5) >>)
      x == Step(R, e.o)
      reply == << x[2], [d \in Regs |-> Delta(R[d], x[3][d])] >>
  IN  CASE x[1] = "ret"   -> Ret(reply)
        [] x[1] = "panic" -> Panics
        [] x[1] = "any"   -> RetOrPanic(reply)
Out(s, e) ==
  IF e.op = "wide" THEN Wide(e) ELSE
  LET x == Step(s, e.o) IN
  CASE x[1] = "ret"   -> With(Ret(<< x[2], x[3] >>), x[3])
    [] x[1] = "panic" -> With(Panics, x[3])
    [] x[1] = "any"   -> With(RetOrPanic(<< x[2], x[3] >>), x[3])
=============================================================================
