CONSTANTS MaxLeaf = 3  MaxNode = 4  MaxCase = 6  Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
