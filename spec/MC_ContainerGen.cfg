CONSTANTS AL = 5  MaxLen = 9  Vals = {0}  Depth = 40  Mode = "random"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
