SPECIFICATION Spec
CONSTANTS
  Clamp = TRUE
  Steps = 4
  Values = {0, 1, 5}
  DimsSet <- D_clamp
INVARIANTS ZeroSum NegativeForm Adjoint SameInLimbs Homogeneous
CHECK_DEADLOCK FALSE
