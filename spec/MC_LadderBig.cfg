CONSTANTS
 Primes = {5, 7, 11, 13, 17, 19, 23, 29, 31}
 Bits = 8
 Broken = FALSE
SPECIFICATION Spec
INVARIANTS LoopInvariant Prefix
CHECK_DEADLOCK FALSE
