CONSTANTS
 MaxLen = 300
 MaxPair = 36
SPECIFICATION Spec
INVARIANTS SHAFraming SpongeFraming Blake2Framing PolyFraming AeadFraming
CHECK_DEADLOCK FALSE
