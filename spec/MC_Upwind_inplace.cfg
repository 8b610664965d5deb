SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Dims <- QuickDims
 Dmax = 4
 Depth = 2
 VARIANT = "inplace"
CHECK_DEADLOCK FALSE
