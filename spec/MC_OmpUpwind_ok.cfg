SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 3
 T = 2
 Steps = 2
 VARIANT = "ok"
