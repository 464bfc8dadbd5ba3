CONSTANT MaxN = 48
SPECIFICATION Spec
INVARIANTS Bezout InvertOk LiftOk SubOk
PROPERTY Terminates
CHECK_DEADLOCK FALSE
