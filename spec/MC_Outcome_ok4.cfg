SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
CONSTANTS NP = 4
 Steps = 2
 VARIANT = "ok"
