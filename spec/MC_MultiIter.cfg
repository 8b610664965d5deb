SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxND = 3 MaxDim = 2 MaxLo = 1 Mutant = "none"
CHECK_DEADLOCK FALSE
