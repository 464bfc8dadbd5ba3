CONSTANTS
 Keys = {1, 2}
 Nonces = {1}
 Texts = {0, 1}
 Packets = 2
 Spots = {0}
 Mode = "exhaustive"
 Depth = 0
INIT Init
NEXT Next
INVARIANTS Authentic Complete
CHECK_DEADLOCK FALSE
