----------------------------- MODULE MC_JsonText -----------------------------
(* The reader of JsonText against three definitions that do not mention it:   *)
(*  - "text": the grammar, built bottom up as a set of byte strings.  The      *)
(*    reader accepts exactly its members, and a byte string it has given up    *)
(*    on is the beginning of none of them;                                     *)
(*  - "code": every character around the bounds of the encodings, spelled as   *)
(*    itself and escaped, in pairs, is read back, and halves of surrogate      *)
(*    pairs are a character only together;                                     *)
(*  - "utf8": strings of bytes around the bounds of the encoding are text      *)
(*    exactly if they are well-formed by the table of the standard;            *)
(*  - "byte": every byte in the places where it makes a difference;          *)
(*  - "doc": written documents are read back.                                  *)
EXTENDS JsonText
CONSTANTS Long, Deep
VARIABLES mode, text, st

(* the grammar over a small alphabet: " \ [ ] { } : , 0 1 - . e space *)
Alphabet == {34, 92, 91, 93, 123, 125, 58, 44, 48, 49, 45, 46, 101, 32}
Cat(A, B) == {a \o b : a \in A, b \in B}
Strings0(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Unit == {<<c>> : c \in Alphabet \ {34, 92}} \cup {<<92, 34>>, <<92, 92>>}
RECURSIVE Inside(_)
Inside(n) == IF n <= 0 THEN {<<>>} ELSE {u \o x : u \in Unit, x \in Inside(n - 1)} \cup {<<>>}
Cut(S, n) == {x \in S : Len(x) <= n}
Strs(n) == IF n < 2 THEN {} ELSE {<<34>> \o x \o <<34>> : x \in Cut(Inside(n - 2), n - 2)}
Runs(n) == UNION {[1..k -> {48, 49}] : k \in 1..n}
Ints(n) == Cut({<<48>>} \cup {r \in Runs(n) : r[1] = 49}, n)
Nums(n) == LET i == Cut(Ints(n) \cup Cat({<<45>>}, Ints(n)), n)
               f == {<<>>} \cup Cat({<<46>>}, Runs(n))
               x == {<<>>} \cup Cat({<<101>>}, Runs(n)) \cup Cat({<<101, 45>>}, Runs(n))
           IN  Cut(Cat(Cut(Cat(i, f), n), x), n)
Blank(n) == UNION {[1..k -> {32}] : k \in 0..n}
RECURSIVE Vals(_), Items(_), Pairs(_)
Padded(S, n) == Cut(UNION {{[i \in 1..a |-> 32] \o v \o [i \in 1..b |-> 32] : a \in 0..(n - Len(v)), b \in 0..(n - Len(v))} : v \in S}, n)
\* one or more values with commas between them, one or more pairs
Items(n) == IF n < 1 THEN {} ELSE LET p == Padded(Vals(n), n) IN p \cup UNION {{v \o <<44>> \o x : x \in Items(n - Len(v) - 1)} : v \in {w \in p : Len(w) < n - 1}}
Pairs(n) == IF n < 4 THEN {} ELSE
  LET k == Padded(Strs(n - 2), n - 2)
      p == UNION {{w \o <<58>> \o v : v \in Padded(Vals(n - Len(w) - 1), n - Len(w) - 1)} : w \in k}
  IN  p \cup UNION {{v \o <<44>> \o x : x \in Pairs(n - Len(v) - 1)} : v \in {w \in p : Len(w) < n - 1}}
Vals(n) == IF n < 1 THEN {} ELSE
  Strs(n) \cup Nums(n)
  \cup (IF n < 2 THEN {} ELSE {<<91>> \o x \o <<93>> : x \in Blank(n - 2) \cup Items(n - 2)} \cup {<<123>> \o x \o <<125>> : x \in Blank(n - 2) \cup Pairs(n - 2)})
Language == TLCEval(Padded(Vals(Long), Long))
Beginnings == TLCEval(UNION {{SubSeq(x, 1, k) : k \in 0..Len(x)} : x \in Language})

(* characters *)
CodesAround == {0, 8, 9, 10, 31, 32, 34, 47, 48, 65, 92, 97, 127, 128, 255, 256, 2047, 2048, 4095, 4096, 55295, 57344, 65533, 65534, 65535, 65536, 65537, 131072, 1048575, 1048576, 1114111}
Halves == {55296, 55297, 56319, 56320, 56321, 57343}
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex4(u) == <<92, 117, HexDigit(u \div 4096), HexDigit((u \div 256) % 16), HexDigit((u \div 16) % 16), HexDigit(u % 16)>>
Hexed(c) == IF c < 65536 THEN Hex4(c) ELSE Hex4(55296 + (c - 65536) \div 1024) \o Hex4(56320 + ((c - 65536) % 1024))
Spellings(c) == {Hexed(c)} \cup (IF c >= 32 /\ c \notin {34, 92} THEN {Utf8(c)} ELSE {})
                \cup (CASE c = 34 -> {<<92, 34>>} [] c = 92 -> {<<92, 92>>} [] c = 47 -> {<<92, 47>>} [] c = 8 -> {<<92, 98>>} [] c = 9 -> {<<92, 116>>} [] c = 10 -> {<<92, 110>>} [] OTHER -> {})
Quoted(b) == <<34>> \o b \o <<34>>

(* bytes around the bounds of the table of well-formed sequences *)
Around == {127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
In(b, i, lo, hi) == i <= Len(b) /\ b[i] >= lo /\ b[i] <= hi
RECURSIVE WellFormed(_)
WellFormed(b) ==
  b = <<>> \/ (\E n \in 1..4 : Len(b) >= n /\ WellFormed(SubSeq(b, n + 1, Len(b))) /\
     CASE n = 1 -> In(b, 1, 0, 127)
       [] n = 2 -> In(b, 1, 194, 223) /\ In(b, 2, 128, 191)
       [] n = 3 -> /\ \/ In(b, 1, 224, 224) /\ In(b, 2, 160, 191)
                      \/ (In(b, 1, 225, 236) \/ In(b, 1, 238, 239)) /\ In(b, 2, 128, 191)
                      \/ In(b, 1, 237, 237) /\ In(b, 2, 128, 159)
                   /\ In(b, 3, 128, 191)
       [] n = 4 -> /\ \/ In(b, 1, 240, 240) /\ In(b, 2, 144, 191)
                      \/ In(b, 1, 241, 243) /\ In(b, 2, 128, 191)
                      \/ In(b, 1, 244, 244) /\ In(b, 2, 128, 143)
                   /\ In(b, 3, 128, 191) /\ In(b, 4, 128, 191))

(* documents *)
Scalars == {Doc("num", Codes("-10.5e+3"), <<>>, <<>>), Doc("num", Codes("0"), <<>>, <<>>), Doc("bool", Codes("true"), <<>>, <<>>), Doc("bool", Codes("false"), <<>>, <<>>),
            Doc("null", <<>>, <<>>, <<>>), Doc("str", <<>>, <<>>, <<>>), Doc("str", <<34, 65536, 10>>, <<>>, <<>>)}
Keys == {<<>>, <<120>>, <<92, 8364>>}
Level(S) == S \cup {Doc("arr", <<>>, q, <<>>) : q \in {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}}
              \cup {Doc("obj", <<>>, <<>>, q) : q \in {<<>>} \cup {<<<<k, a>>>> : k \in Keys, a \in S} \cup {<<<<k, a>>, <<m, b>>>> : k \in Keys, m \in Keys, a \in Scalars, b \in S}}
Docs == IF Deep THEN Level(Level(Scalars)) ELSE Level(Scalars \cup {Doc("arr", <<>>, <<Doc("obj", <<>>, <<>>, <<<<<<120>>, d>>>>), d>>, <<>>) : d \in Scalars})
RECURSIVE Written(_, _), Joined(_, _)
Joined(xs, gap) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o gap \o <<44>> \o gap \o Joined(Tail(xs), gap)
Str(t, gap) == Quoted(FlattenSeq([i \in DOMAIN t |-> IF gap = <<>> /\ t[i] >= 128 THEN Utf8(t[i]) ELSE Hexed(t[i])]))
Written(d, gap) == CASE d.t \in {"num", "bool"} -> d.v
                [] d.t = "null" -> Codes("null")
                [] d.t = "str" -> Str(d.v, gap)
                [] d.t = "arr" -> <<91>> \o gap \o Joined([i \in DOMAIN d.l |-> Written(d.l[i], gap)], gap) \o gap \o <<93>>
                [] d.t = "obj" -> <<123>> \o gap \o Joined([i \in DOMAIN d.o |-> Str(d.o[i][1], gap) \o gap \o <<58>> \o gap \o Written(d.o[i][2], gap)], gap) \o gap \o <<125>>

Init == \/ mode = "text" /\ text = <<>> /\ st = Start
        \/ mode = "code" /\ text \in {<<a, b>> : a \in CodesAround \cup Halves, b \in CodesAround \cup Halves} /\ st = Start
        \/ mode = "utf8" /\ text \in UNION {[1..k -> Around] : k \in 0..(IF Deep THEN 4 ELSE 3)} /\ st = Start
        \/ mode = "utf8" /\ text \in {<<a, b>> : a \in 128..255, b \in 128..255} /\ st = Start
        \/ mode = "byte" /\ text \in {<<a>> : a \in 0..255} /\ st = Start
        \/ mode = "doc" /\ text \in Docs /\ st = Start
Next == \/ /\ mode = "text" /\ Len(text) < Long /\ st.q # "fail"
           /\ \E c \in Alphabet : text' = Append(text, c) /\ st' = Step(st, c)
           /\ UNCHANGED mode
        \/ UNCHANGED <<mode, text, st>>

Grammar == mode = "text" =>
             /\ Read(text).ok <=> text \in Language
             /\ st.q = "fail" => text \notin Beginnings
             /\ Read(text).ok => ~Read(text).odd
Characters == mode = "code" =>
  LET a == text[1]  b == text[2] IN
  IF a \notin Halves /\ b \notin Halves
  THEN \A x \in Spellings(a) : \A y \in Spellings(b) :
         LET f == Read(Quoted(x \o y)) IN f.ok /\ ~f.odd /\ f.doc = Doc("str", text, <<>>, <<>>)
  ELSE \A x \in (IF a \in Halves THEN {Hex4(a)} ELSE Spellings(a)) : \A y \in (IF b \in Halves THEN {Hex4(b)} ELSE Spellings(b)) :
         LET f == Read(Quoted(x \o y))
             pair == a \in 55296..56319 /\ b \in 56320..57343
         IN  /\ f.ok /\ f.odd = ~pair
             /\ pair => f.doc.v = <<65536 + (a - 55296) * 1024 + (b - 56320)>>
             /\ ~pair => ~IsText(f.doc.v)
Encoding == mode = "utf8" => LET f == Read(Quoted(text)) IN
              /\ f.ok /\ f.odd = ~WellFormed(text)
              /\ ~f.odd => FlattenSeq([i \in DOMAIN f.doc.v |-> Utf8(f.doc.v[i])]) = text
              /\ ~f.odd <=> IsText(f.doc.v)
Bytes == mode = "byte" =>
  LET c == text[1]
      space == c \in {9, 10, 13, 32}
  IN  /\ Read(Quoted(text)).ok <=> c >= 32 /\ c \notin {34, 92}
      /\ Read(text).ok <=> c \in 48..57
      /\ Read(text \o <<55>>).ok <=> space \/ c \in 49..57 \/ c = 45
      /\ Read(<<55>> \o text).ok <=> space \/ c \in 48..57
      /\ Read(<<91, 55>> \o text \o <<55, 93>>).ok <=> c \in (48..57) \cup {44, 46, 69, 101}
      /\ Read(Quoted(<<92>> \o text)).ok <=> c \in {Codes("b")[1], Codes("f")[1], Codes("n")[1], Codes("r")[1], Codes("t")[1], 34, 47, 92}
      /\ Read(Quoted(<<92, 117, 48>> \o text \o <<70, 102>>)).ok <=> c \in (48..57) \cup (65..70) \cup (97..102)
      /\ Read(text \o Codes("true")).ok <=> space
      /\ \A w \in {"true", "false", "null"} : \A i \in 1..Len(w) : Read([Codes(w) EXCEPT ![i] = c]).ok <=> Codes(w)[i] = c
Documents == mode = "doc" => \A gap \in {<<>>, <<32>>, <<13, 10, 9>>} :
               LET w == Written(text, gap)
                   f == Read(gap \o w \o gap)
               IN  /\ f.ok /\ f.doc = text /\ ~f.odd
                   \* nothing but white space may follow, and no beginning of a list, an object or a string is enough
                   /\ ~Read(w \o <<0>>).ok /\ ~Read(w \o <<93>>).ok /\ ~Read(w \o <<32>> \o w).ok
                   /\ text.t # "num" => ~Read(Front(w)).ok
=============================================================================
