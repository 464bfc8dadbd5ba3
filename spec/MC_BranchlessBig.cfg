CONSTANT Bits = 8
SPECIFICATION Spec
INVARIANTS Compare Select DivInv
CHECK_DEADLOCK FALSE
