------------------------------ MODULE ByteArray ------------------------------
(* Word views, hex codecs, element-wise arithmetic and equality of           *)
(* containers (C07).  A word is its little-endian byte tuple (ByteNum);      *)
(* a container of words is the tuple of its words; text is a tuple of        *)
(* character codes.                                                          *)
EXTENDS MachineInt

\* groups of k bytes in order, each read in the named byte order
Words(x, k, big) == Force([i \in 1..(Len(x) \div k) |-> IF big = 1 THEN Rev(Block(x, k, i - 1)) ELSE Block(x, k, i - 1)])
WordBytes(ws, big) == Concat(Force([i \in 1..Len(ws) |-> IF big = 1 THEN Rev(ws[i]) ELSE ws[i]]))

Digit(v) == IF v < 10 THEN 48 + v ELSE 87 + v                    \* lower-case hex digit
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
Value(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexText(x) == Force([i \in 1..(2 * Len(x)) |-> LET b == x[(i + 1) \div 2] IN Digit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)])
WellFormed(t) == Len(t) % 2 = 0 /\ \A i \in DOMAIN t : IsHex(t[i])
HexBytes(t) == Force([i \in 1..(Len(t) \div 2) |-> 16 * Value(t[2 * i - 1]) + Value(t[2 * i])])

Elt(f, x, y, sg) ==
  LET w == Len(x) IN
  CASE f = "add" -> Add(x, y, w) [] f = "sub" -> Sub(x, y, w) [] f = "mul" -> Mul(x, y, w)
    [] f = "xor" -> BXor(x, y, w) [] f = "div" -> Div(x, y, w)
Elts(f, a, b, sg) == Force([i \in 1..Len(a) |-> Elt(f, a[i], b[i], sg)])
\* element-wise residues; elements already reduced modulo n
EltsMod(f, a, b, n) ==
  Force([i \in 1..Len(a) |-> CASE f = "add" -> Residue(WAdd(a[i], b[i], 0), n)
                               [] f = "sub" -> Residue(WSub(a[i], b[i], 0), n)
                               [] f = "mul" -> Residue(WMul(a[i], b[i], 0), n)])
\* lexicographic order of word lists: -1, 0, 1
RECURSIVE LexCmp(_, _)
LexCmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
                ELSE LET c == Cmp(a[1], b[1]) IN IF c # 0 THEN c ELSE LexCmp(Tail(a), Tail(b))
=============================================================================
