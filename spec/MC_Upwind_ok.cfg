SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Dims <- QuickDims
 Dmax = 4
 Depth = 2
 VARIANT = "ok"
CHECK_DEADLOCK FALSE
