CONSTANTS
 Primes = {5, 7, 11, 13, 17, 19}
 Bits = 6
INIT Init
NEXT Next
INVARIANTS Law Coordinates LadderInv TimesInv
CHECK_DEADLOCK FALSE
