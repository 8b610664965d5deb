SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
 M = 3
 L = 3
 VARIANT = "shared"
