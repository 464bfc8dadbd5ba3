CONSTANTS Depth = 5  NCalls = 3  NThreads = 2
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
