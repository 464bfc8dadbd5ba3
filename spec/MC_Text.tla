------------------------------ MODULE MC_Text ------------------------------
(* Printing loses nothing: reading the text of a value gives the value back. *)
EXTENDS Text
CONSTANT Top
VARIABLES x, y, sg
Pat(n) == <<n % 256, n \div 256>>
Init == x \in 0..Top /\ y \in {0, 1, 255, 256, 32767, 32768, 65535} /\ sg \in {0, 1}
Next == UNCHANGED <<x, y, sg>>
A == Pat((x * 257 + x) % 65536)
B == Pat(y)
DecimalReadsBack == /\ DecValue(Decimal(A, sg)) = Number(A, sg)
                    /\ DecValue(Decimal(B, sg)) = Number(B, sg)
HexReadsBack == /\ HexValue(Hexa(A)) = Strip(A)
                /\ Len(HexForm(A, 0, 9)) = 9 /\ HexValue(HexForm(A, 0, 9)) = Strip(A)
                /\ HexForm(A, 1, 9)[2] = 120 /\ HexValue(SubSeq(HexForm(A, 1, 9), 3, 9)) = Strip(A)
\* padding adds nothing but the filling, on the sides it belongs to
Strips(t) == SelectSeq(t, LAMBDA c : c # 42)
PaddingKeeps == \A n \in {0, 3, 4, 5, 8}, alt \in {0, 1}, side \in {-1, 0, 1} :
                LET t == HexPadded(A, alt, n, side, 42)
                    d == Len(t) - Len(HexForm(A, alt, 0)) IN
                /\ Strips(t) = HexForm(A, alt, 0) /\ Len(t) >= n /\ (d > 0 => Len(t) = n)
                /\ side = 1 /\ d > 0 => t[1] = 42 /\ t[Len(t)] # 42
                /\ side = -1 /\ d > 0 => t[1] # 42 /\ t[Len(t)] = 42
                /\ side = 0 /\ d > 1 => t[1] = 42 /\ t[Len(t)] = 42
NoLeadingZero == Decimal(A, sg)[1] = 48 => Decimal(A, sg) = <<48>>
ListReadsBack == LET ts == <<Decimal(A, sg), Decimal(B, sg), Decimal(A, 0)>> IN
                 \A n \in 0..3 : Split(ListText(SubSeq(ts, 1, n))) = SubSeq(ts, 1, n)
=============================================================================
