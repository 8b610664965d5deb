SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 4
 T = 3
 Steps = 2
 VARIANT = "ok"
