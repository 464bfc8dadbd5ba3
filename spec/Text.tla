-------------------------------- MODULE Text --------------------------------
(* What values look like when they are printed (C25).  Text is a tuple of    *)
(* character codes.  A machine integer is its little-endian bytes (sg = 1:   *)
(* two's complement); decimal text denotes the number, hexadecimal text the  *)
(* bit pattern.                                                              *)
EXTENDS Bounded

Number(a, sg) == Z(IF IsNeg(a, sg) THEN 1 ELSE 0, Mag(a, sg))
Decimal(a, sg) == DecText(Number(a, sg))

\* digits of the pattern, most significant first, without leading zeros
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE t
Hexa(a) == NoZeros(HexText(Rev(a)))
Upto(t, n) == Rep(48, IF Len(t) < n THEN n - Len(t) ELSE 0) \o t
Prefix == <<48, 120>>                                            \* 0x
\* {:x} with the flags # (alt) and 0n (zero-padded to n characters)
HexForm(a, alt, n) == IF alt = 1 THEN Prefix \o Upto(Hexa(a), n - 2) ELSE Upto(Hexa(a), n)
\* ... padded to n characters with the character fill, the text on the left (-1), in the middle (0) or on the right (1)
Padded(t, n, side, fill) ==
  LET d == IF Len(t) < n THEN n - Len(t) ELSE 0
      left == CASE side = -1 -> 0 [] side = 0 -> d \div 2 [] OTHER -> d
  IN  Rep(fill, left) \o t \o Rep(fill, d - left)
HexPadded(a, alt, n, side, fill) == Padded(HexForm(a, alt, 0), n, side, fill)

\* [x, y, z]
Comma == <<44, 32>>
ListText(ts) == <<91>> \o (IF ts = <<>> THEN <<>> ELSE ts[1] \o Concat(Force([i \in 1..(Len(ts) - 1) |-> Comma \o ts[i + 1]]))) \o <<93>>

----------------------------------------------------------------------------
(* reading text back *)
DecValue(t) == LET neg == t # <<>> /\ t[1] = 45
                   d == IF neg THEN Tail(t) ELSE t
                   m == FoldLeft(LAMBDA acc, c : FullAdd(FullMul(acc, <<10>>), <<c - 48>>), <<>>, d)
               IN  Z(IF neg THEN 1 ELSE 0, m)
HexValue(t) == Strip(FoldLeft(LAMBDA acc, c : FullAdd(FullMul(acc, <<16>>), <<Value(c)>>), <<>>, t))
\* the commas of a list text cut it into its elements; blanks, line ends and a comma after the last element do not count
Blank == {32, 10}
Split(t) == LET inner == SelectSeq(SubSeq(t, 2, Len(t) - 1), LAMBDA c : c \notin Blank)
                body == IF inner # <<>> /\ inner[Len(inner)] = 44 THEN Front(inner) ELSE inner
                step(acc, c) == CASE c = 44 -> Append(acc, <<>>)
                                  [] OTHER  -> [acc EXCEPT ![Len(acc)] = Append(@, c)]
            IN  IF body = <<>> THEN <<>> ELSE FoldLeft(step, <<<<>>>>, body)
=============================================================================
