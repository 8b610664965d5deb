SPECIFICATION Spec
CONSTANTS
  Clamp = FALSE
  Steps = 4
  Values = {0, 1, 5}
  DimsSet <- D_ok
INVARIANTS ZeroSum NegativeForm Adjoint SameInLimbs Homogeneous
CHECK_DEADLOCK FALSE
