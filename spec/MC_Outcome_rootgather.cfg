SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
CONSTANTS NP = 2
 Steps = 1
 VARIANT = "rootgather"
