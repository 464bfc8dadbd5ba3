CONSTANTS AL = 7  MaxLen = 12  Vals = {0}  Depth = 40  Mode = "chunks"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
