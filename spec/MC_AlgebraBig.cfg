CONSTANTS
 Ints <- CornerInts
 Moduli = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17}
 PolyModuli = {2, 3, 5}
 MaxDeg = 2
 Types <- SmallTypes
SPECIFICATION Spec
INVARIANTS Signed Ranged Ring PolyRing PolyDivision
CHECK_DEADLOCK FALSE
