CONSTANTS
  Top = 300
  MulTop = 60
SPECIFICATION Spec
INVARIANTS FieldInverse Substitution Columns BlockCipher CounterMode UnitLaws ProductLaws HashIsPolynomial Rounds Stream TagIsPolynomial
CHECK_DEADLOCK FALSE
