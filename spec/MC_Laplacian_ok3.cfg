SPECIFICATION Spec
CONSTANTS
  Clamp = FALSE
  Steps = 4
  Values = {0, 1, 5}
  DimsSet <- D_ok3
INVARIANTS ZeroSum NegativeForm Adjoint SameInLimbs Homogeneous
CHECK_DEADLOCK FALSE
