CONSTANTS
 Nn = 2
 B = 4
 C = 5
 W = 10
 X = 1
SPECIFICATION Spec
INVARIANTS Product NoExcess
CHECK_DEADLOCK FALSE
