CONSTANTS
 Primes = {7}
 Bits = 6
 Broken = TRUE
SPECIFICATION Spec
INVARIANTS LoopInvariant Prefix
CHECK_DEADLOCK FALSE
