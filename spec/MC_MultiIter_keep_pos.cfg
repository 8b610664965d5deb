SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxND = 3 MaxDim = 2 MaxLo = 1 Mutant = "keep_pos"
CHECK_DEADLOCK FALSE
