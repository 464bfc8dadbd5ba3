CONSTANTS
 MaxLen = 700
 MaxPair = 100
SPECIFICATION Spec
INVARIANTS SHAFraming SpongeFraming Blake2Framing PolyFraming AeadFraming
CHECK_DEADLOCK FALSE
