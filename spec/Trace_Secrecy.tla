---------------------------- MODULE Trace_Secrecy ----------------------------
(* The compiler's answers to programs over secret integers (C23), and what    *)
(* operations on secret integers write to the outside.                        *)
EXTENDS Secrecy, TraceRun

Init0(e) == <<>>
Out(s, e) ==
  CASE e.op = "program" -> (CASE Verdict(e.f, e.a, e.b) = "no"  -> Ret(0)
                              [] Verdict(e.f, e.a, e.b) = "yes" -> Ret(1)
                              [] Verdict(e.f, e.a, e.b) = "any" -> Unspecified)
    [] e.op = "silence" -> Ret(<<>>)
=============================================================================
