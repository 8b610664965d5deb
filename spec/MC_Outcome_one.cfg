SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
CONSTANTS NP = 1
 Steps = 1
 VARIANT = "ok"
