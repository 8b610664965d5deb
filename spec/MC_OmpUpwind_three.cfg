SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 3
 T = 3
 Steps = 1
 VARIANT = "ok"
