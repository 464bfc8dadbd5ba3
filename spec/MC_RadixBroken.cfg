CONSTANTS
 Nn = 2
 B = 3
 C = 3
 W = 7
 X = 3
SPECIFICATION Spec
INVARIANTS Product NoExcess
CHECK_DEADLOCK FALSE
