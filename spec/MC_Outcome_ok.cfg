SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
CONSTANTS NP = 2
 Steps = 2
 VARIANT = "ok"
