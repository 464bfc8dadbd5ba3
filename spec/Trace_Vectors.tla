---------------------------- MODULE Trace_Vectors ----------------------------
(* Files loaded by create_test_vectors! structures (C27). *)
EXTENDS JsonText, TraceRun
Init0(e) == <<>>
TypeOf(k) == CASE k = "leaf" -> Leaf [] k = "node" -> Node [] k = "case" -> Case
               [] k = "wide" -> Wide [] k = "wides" -> <<"vec", Wide>> [] k = "leafs" -> <<"vec", Leaf>> [] k = "nodes" -> <<"vec", Node>>
Out(s, e) ==
  CASE e.op = "load" -> LET f == TLCEval(Read(e.text))
                            ty == TypeOf(e.kind)
                            r == Load(f.doc, ty)
                        IN  IF e.there = 0 \/ ~f.ok THEN Panics
                            ELSE IF HasList(f.doc, ty) THEN Unspecified
                            ELSE IF r.bad THEN Panics
                            ELSE IF f.odd THEN Unspecified     \* no text, in an entry that is not declared
                            ELSE Ret(r.v)
=============================================================================
