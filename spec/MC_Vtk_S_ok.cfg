SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Kind = "STRUCTURED_GRID"
 VARIANT = "ok"
