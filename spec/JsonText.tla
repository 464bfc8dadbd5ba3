------------------------------- MODULE JsonText -------------------------------
(* The JSON text format (RFC 8259) over bytes: which sequences of bytes are    *)
(* one complete JSON value, and which document (in the form of Vectors) they   *)
(* contain.  The reader is a pushdown machine that takes the bytes one by one; *)
(* MC_JsonText checks that it accepts exactly the language of the grammar and  *)
(* that it reads back every document that is written.                          *)
EXTENDS Vectors

Doc(t, v, es, o) == [t |-> t, v |-> v, l |-> es, o |-> o]
(* The state: q what is expected next, up the enclosing lists and objects (innermost last),
   tok the codes of the string or number being read, w the rest of a literal or the digits of an
   escape, hi a first half of a surrogate pair, more continuation bytes that are missing, odd whether
   some string is no text, doc the value once it is complete.
   q: "val" a value, "first" a value or ], "key" a key, "open" a key or }, "colon", "after" a comma or the end,
      "str" inside a string, "esc" after a backslash, "hex" inside \u, "word" inside true, false or null,
      "minus", "zero", "int", "point", "frac", "exp", "sign", "power" the places in a number *)
Nothing == [t |-> "none", v |-> <<>>, l |-> <<>>, o |-> <<>>]
Start == [q |-> "val", up |-> <<>>, tok |-> <<>>, w |-> <<>>, key |-> FALSE, hi |-> 0, more |-> 0, acc |-> 0, least |-> 0, odd |-> FALSE, doc |-> Nothing]
Fail(s) == [s EXCEPT !.q = "fail"]
Space == {32, 9, 10, 13}
Final == {"zero", "int", "frac", "power"}     \* where a number may end

\* a value is complete
Value1(s, d) ==
  IF s.up = <<>> THEN [s EXCEPT !.q = "after", !.doc = d]
  ELSE LET n == Len(s.up)
           f == s.up[n]
           g == IF f.t = "arr" THEN [f EXCEPT !.l = Append(@, d)] ELSE [f EXCEPT !.o = Append(@, <<f.v, d>>), !.v = <<>>]
       IN  [s EXCEPT !.q = "after", !.up = Append(Front(s.up), g)]
\* the innermost list or object ends
Close(s, t) ==
  IF s.up = <<>> \/ s.up[Len(s.up)].t # t THEN Fail(s)
  ELSE Value1([s EXCEPT !.up = Front(@)], s.up[Len(s.up)])
Open(s, t) == [s EXCEPT !.q = IF t = "arr" THEN "first" ELSE "open", !.up = Append(@, Doc(t, <<>>, <<>>, <<>>))]
\* a string begins; at the end it is a value or the key of the innermost object
Quote(s, key) == [s EXCEPT !.q = "str", !.tok = <<>>, !.key = key]
EndString(s) ==
  IF s.key THEN [s EXCEPT !.q = "colon", !.up = Append(Front(s.up), [s.up[Len(s.up)] EXCEPT !.v = s.tok])]
  ELSE Value1(s, Doc("str", s.tok, <<>>, <<>>))
Begin(s, c) ==
  CASE c = 34 -> Quote(s, FALSE)
    [] c = 91 -> Open(s, "arr")
    [] c = 123 -> Open(s, "obj")
    [] c = 45 -> [s EXCEPT !.q = "minus", !.tok = <<c>>]
    [] c = 48 -> [s EXCEPT !.q = "zero", !.tok = <<c>>]
    [] c \in 49..57 -> [s EXCEPT !.q = "int", !.tok = <<c>>]
    [] c = 116 -> [s EXCEPT !.q = "word", !.tok = <<116, 114, 117, 101>>, !.w = <<114, 117, 101>>]
    [] c = 102 -> [s EXCEPT !.q = "word", !.tok = <<102, 97, 108, 115, 101>>, !.w = <<97, 108, 115, 101>>]
    [] c = 110 -> [s EXCEPT !.q = "word", !.tok = <<>>, !.w = <<117, 108, 108>>]
    [] OTHER -> Fail(s)
After(s, c) ==
  CASE c = 44 /\ s.up # <<>> -> [s EXCEPT !.q = IF s.up[Len(s.up)].t = "arr" THEN "val" ELSE "key"]
    [] c = 93 -> Close(s, "arr")
    [] c = 125 -> Close(s, "obj")
    [] c \in Space -> s
    [] OTHER -> Fail(s)
\* strings: first what was pending is settled
Put(s, c) == [s EXCEPT !.tok = Append(@, c), !.odd = @ \/ c \notin 0..1114111 \/ c \in 55296..57343]
Settle(s) == LET a == IF s.more > 0 THEN [Put(s, -1) EXCEPT !.more = 0] ELSE s
             IN  IF a.hi # 0 THEN [Put(a, a.hi) EXCEPT !.hi = 0] ELSE a
Unicode(s, u) ==
  CASE s.hi # 0 /\ u \in 56320..57343 -> [Put(s, 65536 + (s.hi - 55296) * 1024 + (u - 56320)) EXCEPT !.hi = 0]
    [] u \in 55296..56319 -> [Settle(s) EXCEPT !.hi = u]
    [] OTHER -> Put(Settle(s), u)
Lead(s, n, a, low) == [Settle(s) EXCEPT !.more = n, !.acc = a, !.least = low]
InString(s, c) ==
  IF c \in 128..191 /\ s.more > 0 THEN
    LET a == s.acc * 64 + c - 128 IN
    IF s.more > 1 THEN [s EXCEPT !.more = @ - 1, !.acc = a]
    ELSE [Put(s, IF a >= s.least /\ a <= 1114111 /\ a \notin 55296..57343 THEN a ELSE -1) EXCEPT !.more = 0]
  ELSE CASE c = 34 -> EndString(Settle(s))
         [] c = 92 -> [(IF s.more > 0 THEN Settle(s) ELSE s) EXCEPT !.q = "esc"]   \* the second half of a pair may follow
         [] c < 32 -> Fail(s)
         [] c < 128 -> Put(Settle(s), c)
         [] c \in 192..223 -> Lead(s, 1, c - 192, 128)
         [] c \in 224..239 -> Lead(s, 2, c - 224, 2048)
         [] c \in 240..247 -> Lead(s, 3, c - 240, 65536)
         [] OTHER -> Put(Settle(s), -1)
Escaped(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
\* numbers
More(s, q, c) == [s EXCEPT !.q = q, !.tok = Append(@, c)]
InNumber(s, c) ==
  CASE s.q = "minus" -> (CASE c = 48 -> More(s, "zero", c) [] c \in 49..57 -> More(s, "int", c) [] OTHER -> Fail(s))
    [] s.q = "int" /\ c \in 48..57 -> More(s, "int", c)
    [] s.q \in {"zero", "int"} /\ c = 46 -> More(s, "point", c)
    [] s.q \in {"zero", "int", "frac"} /\ c \in {69, 101} -> More(s, "exp", c)
    [] s.q \in {"point", "frac"} /\ c \in 48..57 -> More(s, "frac", c)
    [] s.q = "exp" /\ c \in {43, 45} -> More(s, "sign", c)
    [] s.q \in {"exp", "sign", "power"} /\ c \in 48..57 -> More(s, "power", c)
    [] s.q \in Final -> After(Value1(s, Doc("num", s.tok, <<>>, <<>>)), c)
    [] OTHER -> Fail(s)
Step(s, c) ==
  CASE s.q = "fail" -> s
    [] s.q = "str" -> InString(s, c)
    [] s.q = "after" -> After(s, c)
    [] s.q \in {"val", "first", "key", "open", "colon"} /\ c \in Space -> s
    [] s.q = "first" /\ c = 93 -> Close(s, "arr")
    [] s.q \in {"val", "first"} -> Begin(s, c)
    [] s.q = "open" /\ c = 125 -> Close(s, "obj")
    [] s.q \in {"key", "open"} -> IF c = 34 THEN Quote(s, TRUE) ELSE Fail(s)
    [] s.q = "colon" -> IF c = 58 THEN [s EXCEPT !.q = "val"] ELSE Fail(s)
    [] s.q = "esc" -> (CASE c = 117 -> [s EXCEPT !.q = "hex", !.w = <<>>]
                         [] Escaped(c) >= 0 -> [Put(Settle(s), Escaped(c)) EXCEPT !.q = "str"]
                         [] OTHER -> Fail(s))
    [] s.q = "hex" -> IF HexVal(c) < 0 THEN Fail(s)
                      ELSE IF Len(s.w) < 3 THEN [s EXCEPT !.w = Append(@, HexVal(c))]
                      ELSE [Unicode(s, ((s.w[1] * 16 + s.w[2]) * 16 + s.w[3]) * 16 + HexVal(c)) EXCEPT !.q = "str"]
    [] s.q = "word" -> IF c # s.w[1] THEN Fail(s)
                       ELSE IF Len(s.w) > 1 THEN [s EXCEPT !.w = Tail(@)]
                       ELSE Value1([s EXCEPT !.w = <<>>], Doc(IF s.tok = <<>> THEN "null" ELSE "bool", s.tok, <<>>, <<>>))
    [] OTHER -> InNumber(s, c)

\* reading a file: the document, or a refusal
Read(bytes) ==
  LET s == FoldLeft(LAMBDA acc, c : TLCEval(Step(acc, c)), Start, bytes)
      e == IF s.q \in Final /\ s.up = <<>> THEN Value1(s, Doc("num", s.tok, <<>>, <<>>)) ELSE s
  IN  [ok |-> e.q = "after" /\ e.up = <<>>, odd |-> e.odd, doc |-> e.doc]
=============================================================================
