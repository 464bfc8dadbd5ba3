CONSTANTS
 Keys = {1, 2}
 Nonces = {1, 2}
 Texts = {0, 1, 2}
 Packets = 4
 Spots = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
 Mode = "random"
 Depth = 40
INIT Init
NEXT Next
INVARIANTS Authentic Complete
CHECK_DEADLOCK FALSE
