CONSTANT Top = 2047
INIT Init
NEXT Next
INVARIANT DecimalReadsBack
INVARIANT HexReadsBack
INVARIANT NoLeadingZero
INVARIANT ListReadsBack
CHECK_DEADLOCK FALSE
INVARIANT PaddingKeeps
