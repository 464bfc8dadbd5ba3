CONSTANTS
 Ints <- CornerInts
 Moduli = {1, 2, 3, 4, 6, 7, 9, 12}
 PolyModuli = {2, 3}
 MaxDeg = 2
 Types <- SmallTypes
SPECIFICATION Spec
INVARIANTS Signed Ranged Ring PolyRing PolyDivision
CHECK_DEADLOCK FALSE
