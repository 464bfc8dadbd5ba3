CONSTANTS MaxLeaf = 3  MaxNode = 4  MaxCase = 6  Emitting = FALSE
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
