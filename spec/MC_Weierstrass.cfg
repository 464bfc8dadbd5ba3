CONSTANTS
 Primes = {5, 7, 11}
 Bits = 5
INIT Init
NEXT Next
INVARIANTS Law Coordinates LadderInv TimesInv
CHECK_DEADLOCK FALSE
