------------------------------- MODULE Vectors -------------------------------
(* Loading test vectors from JSON (C27).  A document is                      *)
(*   [t |-> kind, v |-> text, l |-> documents, o |-> <<<<key, document>>...>>] *)
(* of which a "num", "str" or "bool" uses v, an "arr" l, an "obj" o, "null"  *)
(* nothing; texts and keys are tuples of character codes.  JsonText gives the *)
(* document a file contains.  A type is what a field was declared with: <<"uint", bits>>,     *)
(* <<"int", bits>>, <<"str">>, <<"bool">>, <<"vec", type>> or                *)
(* <<"rec", <<<<field, type>>...>>>>.                                        *)
(* Loading a document as a type is a function: the value, or the refusal Bad. *)
EXTENDS ByteNum

Bad == [bad |-> TRUE]
Good(v) == [bad |-> FALSE, v |-> v]

\* numbers are read from their text: digits without leading zeros, a minus sign for negative ones;
\* anything else (a fraction, an exponent) is not a number of an integer type
Digits(t) == Force([i \in 1..Len(t) |-> IF t[i] \in 48..57 THEN t[i] - 48 ELSE 10])
IsNatural(ds) == ds # <<>> /\ (\A i \in DOMAIN ds : ds[i] < 10) /\ (Len(ds) > 1 => ds[1] # 0)
Natural(ds) == FoldLeft(LAMBDA acc, d : Force(FullAdd(FullMul(acc, <<10>>), <<d>>)), <<>>, ds)
\* v < 2^k
Under(v, k) == Lt(v, Pow2B(k, 17))
FitsU(t, bits) == LET ds == Digits(t) IN IsNatural(ds) /\ Under(Natural(ds), bits)
FitsS(t, bits) == IF Len(t) > 1 /\ t[1] = 45
                  THEN LET ds == Digits(Tail(t)) IN
                       IsNatural(ds) /\ ds # <<0>> /\ Leq(Natural(ds), Pow2B(bits - 1, 17))
                  ELSE FitsU(t, bits - 1)

\* the codes a string can hold: escapes may name halves of surrogate pairs, and a file may hold bytes that are no text
IsText(t) == \A i \in DOMAIN t : t[i] \in 0..1114111 /\ t[i] \notin 55296..57343

RECURSIVE Load(_, _)
LoadAll(ds, ty) ==
  LET hs == Force([i \in DOMAIN ds |-> Load(ds[i], ty)])
  IN  IF \E i \in DOMAIN hs : hs[i].bad THEN Bad ELSE Good(Force([i \in DOMAIN hs |-> hs[i].v]))
Named(d, k) == SelectSeq(d.o, LAMBDA kv : kv[1] = k)
LoadFields(d, fs) ==
  LET one(f) == LET m == Named(d, f[1]) IN IF Len(m) = 1 THEN Load(m[1][2], f[2]) ELSE Bad   \* missing, or given twice
      hs == Force([i \in DOMAIN fs |-> one(fs[i])])
  IN  IF \E i \in DOMAIN hs : hs[i].bad THEN Bad ELSE Good(Force([i \in DOMAIN hs |-> hs[i].v]))
Load(d, ty) ==
  CASE ty[1] = "uint" -> IF d.t = "num" /\ FitsU(d.v, ty[2]) THEN Good(d.v) ELSE Bad
    [] ty[1] = "int"  -> IF d.t = "num" /\ FitsS(d.v, ty[2]) THEN Good(d.v) ELSE Bad
    [] ty[1] = "str"  -> IF d.t = "str" /\ IsText(d.v) THEN Good(d.v) ELSE Bad
    [] ty[1] = "bool" -> IF d.t = "bool" THEN Good(d.v) ELSE Bad
    [] ty[1] = "vec"  -> IF d.t = "arr" THEN LoadAll(d.l, ty[2]) ELSE Bad
    [] ty[1] = "rec"  -> IF d.t = "obj" THEN LoadFields(d, ty[2]) ELSE Bad

\* a structure given as the list of its fields; the loader may take or refuse it
RECURSIVE HasList(_, _)
HasList(d, ty) ==
  CASE ty[1] = "rec" -> \/ d.t = "arr" /\ Len(d.l) = Len(ty[2])
                        \/ d.t = "obj" /\ \E i \in DOMAIN ty[2] : \E j \in DOMAIN d.o : d.o[j][1] = ty[2][i][1] /\ HasList(d.o[j][2], ty[2][i][2])
    [] ty[1] = "vec" -> d.t = "arr" /\ \E i \in DOMAIN d.l : HasList(d.l[i], ty[2])
    [] OTHER -> FALSE

\* the codes of a text of printable ASCII characters
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c)])
Codes(s) == Force([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])
F(name, ty) == <<Codes(name), ty>>

(* the structures the recorder declares with create_test_vectors! *)
Leaf == TLCEval(<<"rec", <<F("x", <<"uint", 32>>), F("s", <<"str">>)>>>>)
Node == TLCEval(<<"rec", <<F("info", <<"str">>), F("flag", <<"bool">>), F("bytes", <<"vec", <<"uint", 8>>>>), F("tests", <<"vec", Leaf>>)>>>>)
\* the same field names in another order and case
Case == TLCEval(<<"rec", <<F("tcId", <<"uint", 32>>), F("X", <<"uint", 32>>), F("x", <<"uint", 32>>), F("msg", <<"str">>), F("ct", <<"str">>)>>>>)
Wide == TLCEval(<<"rec", <<F("a", <<"uint", 64>>), F("b", <<"int", 16>>), F("c", <<"uint", 128>>), F("d", <<"vec", <<"vec", <<"uint", 16>>>>>>),
                   F("e", <<"vec", <<"str">>>>), F("f", <<"int", 64>>), F("g", <<"vec", Node>>)>>>>)
=============================================================================
