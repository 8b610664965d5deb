SPECIFICATION Spec
CONSTANTS
  Np = 2
  Steps = 2
  Costs = {0, 1, 3}
  Bases = {0, 5}
  Variant = "span"
INVARIANTS RightTimes Ordered
CHECK_DEADLOCK FALSE
