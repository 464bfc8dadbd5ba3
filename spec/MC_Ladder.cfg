CONSTANTS
 Primes = {7, 11, 13, 19}
 Bits = 6
 Broken = FALSE
SPECIFICATION Spec
INVARIANTS LoopInvariant Prefix
CHECK_DEADLOCK FALSE
