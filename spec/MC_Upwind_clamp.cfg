SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Dims <- QuickDims
 Dmax = 4
 Depth = 2
 VARIANT = "clamp"
CHECK_DEADLOCK FALSE
