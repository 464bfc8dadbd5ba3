CONSTANTS NRandom = 200  MaxLen = 4
INIT Init
NEXT Next
INVARIANTS Agree Algebra
CHECK_DEADLOCK FALSE
