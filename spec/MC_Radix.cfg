CONSTANTS
 Nn = 3
 B = 2
 C = 3
 W = 9
 X = 1
SPECIFICATION Spec
INVARIANTS Product NoExcess
CHECK_DEADLOCK FALSE
