CONSTANTS
 Top = 200
SPECIFICATION Spec
INVARIANTS Constants Periods KeccakSteps ThetaLinear ShaSteps BlakeSteps ShaGoesOn SpongeGoesOn ShorterFirst Keys Expansion
CHECK_DEADLOCK FALSE
