CONSTANT Bits = 5
SPECIFICATION Spec
INVARIANTS Compare Select DivInv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
