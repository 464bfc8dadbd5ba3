CONSTANT Top = 65535
INIT Init
NEXT Next
INVARIANT DecimalReadsBack
INVARIANT HexReadsBack
INVARIANT NoLeadingZero
INVARIANT ListReadsBack
CHECK_DEADLOCK FALSE
INVARIANT PaddingKeeps
