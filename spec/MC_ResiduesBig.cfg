CONSTANT MaxN = 200
SPECIFICATION Spec
INVARIANTS Bezout InvertOk LiftOk SubOk
CHECK_DEADLOCK FALSE
