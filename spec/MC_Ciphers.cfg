CONSTANTS
  Top = 60
  MulTop = 20
SPECIFICATION Spec
INVARIANTS FieldInverse Substitution Columns BlockCipher CounterMode UnitLaws ProductLaws HashIsPolynomial Rounds Stream TagIsPolynomial
CHECK_DEADLOCK FALSE
