CONSTANTS AL = 2  MaxLen = 4  Vals = {0, 1}  Depth = 0  Mode = "exhaustive"
INIT Init
NEXT Next
INVARIANTS PartitionOK
CHECK_DEADLOCK FALSE
