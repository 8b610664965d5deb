SPECIFICATION Spec
CONSTANTS
  Np = 3
  Steps = 2
  Costs = {0, 2}
  Bases = {0, 5}
  Variant = "ok"
INVARIANTS RightTimes Ordered
CHECK_DEADLOCK FALSE
