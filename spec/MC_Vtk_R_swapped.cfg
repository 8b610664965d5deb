SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Kind = "RECTILINEAR_GRID"
 VARIANT = "swapped"
