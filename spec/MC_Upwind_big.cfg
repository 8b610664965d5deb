SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Dims <- BigDims
 Dmax = 4
 Depth = 2
 VARIANT = "ok"
CHECK_DEADLOCK FALSE
