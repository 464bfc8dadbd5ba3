CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS Sound SelfImplies Note
POSTCONDITION Adequate
CHECK_DEADLOCK FALSE
